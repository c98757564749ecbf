static E satS(E x,u32 w){ u32 W=x->w; E mx=mkC(W,(1ull<<(w-1))-1), mn=mkNeg(mkC(W,1ull<<(w-1))); return mkExtract(mkIte(mkSlt(mx,x),mx,mkIte(mkSlt(x,mn),mn,x)),0,w); }
static E satU(E x,u32 w){ u32 W=x->w; E mx=mkC(W,(1ull<<w)-1), z=mkC(W,0); return mkExtract(mkIte(mkSlt(x,z),z,mkIte(mkSlt(mx,x),mx,x)),0,w); }
// ------------------------------------------------------------------ types
static u32 bitsOf(Type*t){ if(t->isPointerTy()) return 64; if(t->isIntegerTy()) return t->getIntegerBitWidth(); if(t->isFloatTy()) return 32; if(t->isDoubleTy()) return 64; if(t->isX86_FP80Ty()) return 80; return 0; }
static void leaves(Type*t,std::vector<u32>&w,std::vector<u64>*off=nullptr,u64 base=0){
  if(u32 b=bitsOf(t)){ w.push_back(b); if(off) off->push_back(base); return; }
  if(auto*v=dyn_cast<FixedVectorType>(t)){ u32 b=bitsOf(v->getElementType()); for(u32 i=0;i<v->getNumElements();i++){ w.push_back(b); if(off) off->push_back(base*8+(u64)i*b); } return; } // vectors: off is in BITS (flagged by caller)
  if(auto*s=dyn_cast<StructType>(t)){ const StructLayout*L=off?DL->getStructLayout(s):nullptr; for(u32 i=0;i<s->getNumElements();i++) leaves(s->getElementType(i),w,off,base+(L?(u64)L->getElementOffset(i):0)); return; }
  if(auto*a=dyn_cast<ArrayType>(t)){ u64 es=DL->getTypeAllocSize(a->getElementType()); for(u64 i=0;i<a->getNumElements();i++) leaves(a->getElementType(),w,off,base+i*es); return; }
  if(t->isVoidTy()||t->isTokenTy()||t->isLabelTy()||t->isMetadataTy()) return;
  std::string s; raw_string_ostream o(s); o<<*t; engineError("unsupported type "+o.str());
}
static u32 nleaves(Type*t){ std::vector<u32> w; leaves(t,w); return w.size(); }
static u32 leafW(Type*t){ std::vector<u32> w; leaves(t,w); return w.empty()?0:w[0]; }
static Fn* getFn(Function*F);
static u64 addrOf(GlobalValue*g);
// ------------------------------------------------------------------ constants
static void constVals(Constant*c,std::vector<Val>&out);
static u64 constU(Constant*c){ std::vector<Val> v; constVals(c,v); if(v.size()!=1||v[0].e) engineError("constU"); return v[0].c; }
static void constVals(Constant*c,std::vector<Val>&out){
  if(auto*ci=dyn_cast<ConstantInt>(c)){ if(ci->getBitWidth()<=64) out.push_back(VC(ci->getZExtValue())); else out.push_back(fromE(mkCA(ci->getValue()))); return; }
  if(auto*cf=dyn_cast<ConstantFP>(c)){ out.push_back(fromE(mkCA(cf->getValueAPF().bitcastToAPInt()))); return; }
  if(isa<ConstantPointerNull>(c)){ out.push_back(VC(0)); return; }
  if(isa<UndefValue>(c)||isa<ConstantAggregateZero>(c)){ std::vector<u32> w; leaves(c->getType(),w); for(u32 x:w) out.push_back(x<=64?VC(0):fromE(mkC(x,0))); return; }
  if(auto*g=dyn_cast<GlobalValue>(c)){ out.push_back(VC(addrOf(g))); return; }
  if(auto*d=dyn_cast<ConstantDataSequential>(c)){ for(u32 i=0;i<d->getNumElements();i++) constVals(d->getElementAsConstant(i),out); return; }
  if(isa<ConstantAggregate>(c)){ for(u32 i=0;i<c->getNumOperands();i++) constVals(cast<Constant>(c->getOperand(i)),out); return; }
  if(auto*ce=dyn_cast<ConstantExpr>(c)){
    switch(ce->getOpcode()){
    case Instruction::GetElementPtr:{ APInt off(64,0); auto*g=cast<GEPOperator>(ce); if(!g->accumulateConstantOffset(*DL,off)) engineError("gep const"); out.push_back(VC(constU(ce->getOperand(0))+off.getSExtValue())); return; }
    case Instruction::BitCast: case Instruction::AddrSpaceCast: constVals(ce->getOperand(0),out); return;
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: case Instruction::ZExt: out.push_back(VC(maskw(constU(ce->getOperand(0)),bitsOf(ce->getType())))); return;
    case Instruction::Add: out.push_back(VC(maskw(constU(ce->getOperand(0))+constU(ce->getOperand(1)),bitsOf(ce->getType())))); return;
    case Instruction::Sub: out.push_back(VC(maskw(constU(ce->getOperand(0))-constU(ce->getOperand(1)),bitsOf(ce->getType())))); return;
    case Instruction::ICmp: out.push_back(VC(ce->getPredicate()==CmpInst::ICMP_EQ?constU(ce->getOperand(0))==constU(ce->getOperand(1)):constU(ce->getOperand(0))!=constU(ce->getOperand(1)))); return;
    default: break; }
  }
  std::string s; raw_string_ostream o(s); o<<*c; engineError("unsupported constant "+o.str());
}
static void initMem(Obj&o,u64 off,Constant*c){
  if(isa<ConstantAggregateZero>(c)||isa<ConstantPointerNull>(c)){ memset(o.data+off,0,DL->getTypeStoreSize(c->getType())); return; }
  if(isa<UndefValue>(c)) { memset(o.data+off,0,DL->getTypeStoreSize(c->getType())); return; }
  if(auto*d=dyn_cast<ConstantDataSequential>(c)){ StringRef r=d->getRawDataValues(); memcpy(o.data+off,r.data(),r.size()); return; }
  if(auto*s=dyn_cast<ConstantStruct>(c)){ auto*L=DL->getStructLayout(s->getType()); for(u32 i=0;i<s->getNumOperands();i++) initMem(o,off+(u64)L->getElementOffset(i),s->getOperand(i)); return; }
  if(auto*a=dyn_cast<ConstantArray>(c)){ u64 es=DL->getTypeAllocSize(a->getType()->getElementType()); for(u32 i=0;i<a->getNumOperands();i++) initMem(o,off+i*es,a->getOperand(i)); return; }
  if(auto*v=dyn_cast<ConstantVector>(c)){ u64 es=bitsOf(v->getType()->getElementType())/8; for(u32 i=0;i<v->getNumOperands();i++) initMem(o,off+i*es,v->getOperand(i)); return; }
  std::vector<Val> v; constVals(c,v); storeTo(o,off,DL->getTypeStoreSize(c->getType()),v[0]);
}
static std::vector<GlobalVariable*> pendInit;
static u64 addrOf(GlobalValue*g){
  auto it=gaddr.find(g); if(it!=gaddr.end()) return it->second;
  if(auto*a=dyn_cast<GlobalAlias>(g)){ u64 r=constU(a->getAliasee()); gaddr[g]=r; return r; }
  if(auto*F=dyn_cast<Function>(g)){ Fn*f=getFn(F); if(!f->addr){ u32 id=newObj(16,3,64,true,strdup(f->name.c_str())); f->addr=objs[id].base; fnByAddr[f->addr]=f; } gaddr[g]=f->addr; return f->addr; }
  auto*v=cast<GlobalVariable>(g); u64 sz=v->getValueType()->isSized()?(u64)DL->getTypeAllocSize(v->getValueType()):8; bool ext=v->isDeclaration();
  if(ext) sz=std::max<u64>(sz,64);
  u32 id=newObj(sz,0,std::max<u64>(64,v->getAlign().valueOrOne().value()),false,strdup(v->getName().str().c_str()),0); u64 b=objs[id].base; gaddr[g]=b;
  if(!ext){ Constant*c=v->getInitializer(); Obj tmp=objs[id]; initMem(tmp,0,c); objs[id].data=tmp.data; objs[id].sym=tmp.sym; objs[id].ro=v->isConstant(); }
  return b;
}
// ------------------------------------------------------------------ builtins table
enum BI { B_NONE=-1,B_INTRIN=1000 };
static int builtinId(const std::string&n);
static Fn* getFn(Function*F){ auto it=fns.find(F); if(it!=fns.end()) return it->second; Fn*f=new Fn; f->F=F; f->name=F->getName().str(); fns[F]=f; f->builtin=builtinId(f->name); return f; }
// ------------------------------------------------------------------ decode
struct Decoder {
  Fn*f; DenseMap<Value*,int> slot; DenseMap<BasicBlock*,int> bbpc;
  Opnd opnd(Value*v){ Opnd o; o.slot=-1;o.cv=nullptr; if(auto*c=dyn_cast<Constant>(v)){ std::vector<Val> x; constVals(c,x); Val*p=(Val*)malloc(sizeof(Val)*(x.size()+1)); memcpy((void*)p,x.data(),sizeof(Val)*x.size()); o.cv=p; return o; } if(isa<MetadataAsValue>(v)||isa<InlineAsm>(v)||isa<BasicBlock>(v)){ static Val z{nullptr,0}; o.cv=&z; return o; } auto it=slot.find(v); if(it==slot.end()) engineError("no slot"); o.slot=it->second; return o; }
  int mkEdge(BasicBlock*from,BasicBlock*to){ Edge e; e.target=bbpc[to]; for(PHINode&p:to->phis()){ PhiMove m; m.dst=slot[&p]; m.n=nleaves(p.getType()); m.src=opnd(p.getIncomingValueForBlock(from)); if(isa<UndefValue>(p.getIncomingValueForBlock(from))&&0) continue; e.moves.push_back(m);} f->edges.push_back(e); return f->edges.size()-1; }
  void run(){
    Function*F=f->F; int n=0; for(auto&a:F->args()){ slot[&a]=n; f->argSlot.push_back(n); u32 k=nleaves(a.getType()); f->argN.push_back(k); n+=k; }
    int pc=0; for(auto&B:*F){ for(auto&I:B){ if(isa<PHINode>(I)){ slot[&I]=n; n+=nleaves(I.getType()); continue; } if(!I.getType()->isVoidTy()&&!I.getType()->isTokenTy()){ slot[&I]=n; n+=nleaves(I.getType()); } }
    }
    for(auto&B:*F){ bbpc[&B]=pc; for(auto&I:B){ if(isa<PHINode>(I)) continue; if(auto*II=dyn_cast<IntrinsicInst>(&I)) if(skip(II)) continue; pc++; } }
    f->nslots=n;
    for(auto&B:*F) for(auto&I:B){ if(isa<PHINode>(I)) continue; if(auto*II=dyn_cast<IntrinsicInst>(&I)) if(skip(II)) continue; DI d; d.op=I.getOpcode(); d.sub=0; d.I=&I; d.dst=slot.count(&I)?slot[&I]:-1; d.n=I.getType()->isVoidTy()?0:nleaves(I.getType()); d.w=d.n?leafW(I.getType()):0; d.e0=d.e1=-1; d.callee=nullptr; d.imm=0; d.w2=0;d.n2=0; d.ty=I.getType(); dec(I,d,&B); f->code.push_back(std::move(d)); }
    f->decoded=true;
  }
  bool skip(IntrinsicInst*II){ switch(II->getIntrinsicID()){ case Intrinsic::dbg_declare:case Intrinsic::dbg_value:case Intrinsic::dbg_label:case Intrinsic::lifetime_start:case Intrinsic::lifetime_end:case Intrinsic::assume:case Intrinsic::experimental_noalias_scope_decl:case Intrinsic::donothing:case Intrinsic::prefetch:case Intrinsic::invariant_start:case Intrinsic::invariant_end: case Intrinsic::stackrestore: case Intrinsic::var_annotation: case Intrinsic::x86_sse2_pause: case Intrinsic::x86_sse2_mfence: case Intrinsic::x86_sse_sfence: case Intrinsic::x86_sse2_lfence: case Intrinsic::x86_avx_vzeroupper: case Intrinsic::x86_avx_vzeroall: return !II->isTerminator(); default:return false; } }
  void layout(Type*t,DI&d){ // memory layout of leaves: (bitoff,width)
    if(auto*v=dyn_cast<FixedVectorType>(t)){ u32 b=bitsOf(v->getElementType()); for(u32 i=0;i<v->getNumElements();i++) d.lay.push_back({i*b,b}); return; }
    if(bitsOf(t)){ d.lay.push_back({0,bitsOf(t)}); return; }
    if(auto*s=dyn_cast<StructType>(t)){ auto*L=DL->getStructLayout(s); for(u32 i=0;i<s->getNumElements();i++){ DI q; layout(s->getElementType(i),q); for(auto&p:q.lay) d.lay.push_back({p.first+8*(u32)(u64)L->getElementOffset(i),p.second}); } return; }
    if(auto*a=dyn_cast<ArrayType>(t)){ u64 es=DL->getTypeAllocSize(a->getElementType()); for(u64 k=0;k<a->getNumElements();k++){ DI q; layout(a->getElementType(),q); for(auto&p:q.lay) d.lay.push_back({p.first+(u32)(8*es*k),p.second}); } return; }
    engineError("layout");
  }
  void dec(Instruction&I,DI&d,BasicBlock*B){
    auto add=[&](Value*v){ d.o.push_back(opnd(v)); Type*t=v->getType(); if(t->isMetadataTy()||t->isLabelTy()){ d.ow.push_back(0); d.on.push_back(0);} else { d.on.push_back(nleaves(t)); d.ow.push_back(leafW(t)); } };
    if(auto*br=dyn_cast<BranchInst>(&I)){ if(br->isConditional()){ add(br->getCondition()); d.e0=mkEdge(B,br->getSuccessor(0)); d.e1=mkEdge(B,br->getSuccessor(1)); } else d.e0=mkEdge(B,br->getSuccessor(0)); return; }
    if(auto*s=dyn_cast<SwitchInst>(&I)){ add(s->getCondition()); d.e0=mkEdge(B,s->getDefaultDest()); for(auto&c:s->cases()) d.sw.push_back({c.getCaseValue()->getZExtValue(),mkEdge(B,c.getCaseSuccessor())}); return; }
    if(auto*c=dyn_cast<CallBase>(&I)){ for(auto&a:c->args()) add(a.get()); Value*cv=c->getCalledOperand()->stripPointerCasts(); if(auto*al=dyn_cast<GlobalAlias>(cv)) cv=al->getAliaseeObject(); if(auto*F=dyn_cast<Function>(cv)) d.callee=getFn(F); else { if(c->isInlineAsm()){ d.sub=1; } add(c->getCalledOperand()); } if(auto*iv=dyn_cast<InvokeInst>(c)){ d.e0=mkEdge(B,iv->getNormalDest()); d.e1=mkEdge(B,iv->getUnwindDest()); } d.op=Instruction::Call; if(isa<InvokeInst>(c)) d.op=Instruction::Invoke; d.imm=c->arg_size(); return; }
    if(auto*g=dyn_cast<GetElementPtrInst>(&I)){ add(g->getPointerOperand()); if(d.n!=1) engineError("vector gep"); i64 coff=0; for(auto it=gep_type_begin(g),e=gep_type_end(g);it!=e;++it){ Value*ix=it.getOperand(); if(StructType*S=it.getStructTypeOrNull()){ coff+=(u64)DL->getStructLayout(S)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); } else { u64 es=DL->getTypeAllocSize(it.getIndexedType()); if(auto*ci=dyn_cast<ConstantInt>(ix)) coff+=ci->getSExtValue()*(i64)es; else d.gi.push_back({opnd(ix),bitsOf(ix->getType()),es}); } } d.imm=(u64)coff; return; }
    if(auto*a=dyn_cast<AllocaInst>(&I)){ d.imm=DL->getTypeAllocSize(a->getAllocatedType()); d.w2=a->getAlign().value(); add(a->getArraySize()); return; }
    if(auto*l=dyn_cast<LoadInst>(&I)){ add(l->getPointerOperand()); layout(l->getType(),d); d.imm=DL->getTypeStoreSize(l->getType()); return; }
    if(auto*s=dyn_cast<StoreInst>(&I)){ add(s->getValueOperand()); add(s->getPointerOperand()); layout(s->getValueOperand()->getType(),d); d.imm=DL->getTypeStoreSize(s->getValueOperand()->getType()); return; }
    if(auto*c=dyn_cast<CmpInst>(&I)) d.sub=c->getPredicate();
    if(auto*sv=dyn_cast<ShuffleVectorInst>(&I)){ add(sv->getOperand(0)); add(sv->getOperand(1)); for(int m:sv->getShuffleMask()) d.mask.push_back(m); return; }
    if(auto*ev=dyn_cast<ExtractValueInst>(&I)){ add(ev->getAggregateOperand()); Type*t=ev->getAggregateOperand()->getType(); u32 off=0; for(unsigned ix:ev->indices()){ if(auto*s=dyn_cast<StructType>(t)){ for(unsigned i=0;i<ix;i++) off+=nleaves(s->getElementType(i)); t=s->getElementType(ix);} else { auto*a=cast<ArrayType>(t); off+=ix*nleaves(a->getElementType()); t=a->getElementType(); } } d.imm=off; return; }
    if(auto*iv=dyn_cast<InsertValueInst>(&I)){ add(iv->getAggregateOperand()); add(iv->getInsertedValueOperand()); Type*t=iv->getType(); u32 off=0; for(unsigned ix:iv->indices()){ if(auto*s=dyn_cast<StructType>(t)){ for(unsigned i=0;i<ix;i++) off+=nleaves(s->getElementType(i)); t=s->getElementType(ix);} else { auto*a=cast<ArrayType>(t); off+=ix*nleaves(a->getElementType()); t=a->getElementType(); } } d.imm=off; return; }
    if(auto*rm=dyn_cast<AtomicRMWInst>(&I)){ d.sub=rm->getOperation(); }
    for(Use&u:I.operands()){ if(isa<BasicBlock>(u.get())) continue; add(u.get()); }
  }
  typedef int64_t i64;
};
static void decode(Fn*f){ Decoder d; d.f=f; d.run(); }
// ------------------------------------------------------------------ scalar ops
static inline const Val* op(Frame&fr,const Opnd&o){ return o.slot>=0?fr.r+o.slot:o.cv; }
static inline int64_t sx(u64 v,u32 w){ return w>=64?(int64_t)v:((int64_t)(v<<(64-w)))>>(64-w); }
static Val binop(u32 opc,const Val&a,const Val&b,u32 w){
  if(!a.e&&!b.e&&w<=64){ u64 x=a.c,y=b.c; switch(opc){
    case Instruction::Add:return VC(maskw(x+y,w)); case Instruction::Sub:return VC(maskw(x-y,w)); case Instruction::Mul:return VC(maskw(x*y,w));
    case Instruction::And:return VC(x&y); case Instruction::Or:return VC(x|y); case Instruction::Xor:return VC(x^y);
    case Instruction::Shl:return VC(y>=w?0:maskw(x<<y,w)); case Instruction::LShr:return VC(y>=w?0:x>>y); case Instruction::AShr:return VC(maskw((u64)(sx(x,w)>>(y>=w?w-1:y)),w));
    case Instruction::UDiv: if(!y) pathError("division by zero"); return VC(x/y); case Instruction::URem: if(!y) pathError("division by zero"); return VC(x%y);
    case Instruction::SDiv: if(!y) pathError("division by zero"); if(sx(y,w)==-1) return VC(maskw(-x,w)); return VC(maskw((u64)(sx(x,w)/sx(y,w)),w)); case Instruction::SRem: if(!y) pathError("division by zero"); if(sx(y,w)==-1) return VC(0); return VC(maskw((u64)(sx(x,w)%sx(y,w)),w)); } }
  E x=toE(a,w),y=toE(b,w);
  switch(opc){ case Instruction::Add:return fromE(mkAdd(x,y)); case Instruction::Sub:return fromE(mkSub(x,y)); case Instruction::Mul:return fromE(mkMul(x,y)); case Instruction::And:return fromE(mkAnd(x,y)); case Instruction::Or:return fromE(mkOr(x,y)); case Instruction::Xor:return fromE(mkXor(x,y)); case Instruction::Shl:return fromE(mkShift(SHL,x,y)); case Instruction::LShr:return fromE(mkShift(LSHR,x,y)); case Instruction::AShr:return fromE(mkShift(ASHR,x,y));
  case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:{ E z=mkEq(y,mkC(w,0)); if(!isC(z)||z->aux){ if(decide(z)) pathError("division by zero"); } return fromE(mkDiv(opc==Instruction::UDiv?UDIV:opc==Instruction::URem?UREM:opc==Instruction::SDiv?SDIV:SREM,x,y)); } }
  engineError("binop"); return VC(0);
}
static Val icmp(u32 p,const Val&a,const Val&b,u32 w){
  if(!a.e&&!b.e&&w<=64){ u64 x=a.c,y=b.c; int64_t sxx=sx(x,w),sy=sx(y,w); switch(p){ case CmpInst::ICMP_EQ:return VC(x==y);case CmpInst::ICMP_NE:return VC(x!=y);case CmpInst::ICMP_UGT:return VC(x>y);case CmpInst::ICMP_UGE:return VC(x>=y);case CmpInst::ICMP_ULT:return VC(x<y);case CmpInst::ICMP_ULE:return VC(x<=y);case CmpInst::ICMP_SGT:return VC(sxx>sy);case CmpInst::ICMP_SGE:return VC(sxx>=sy);case CmpInst::ICMP_SLT:return VC(sxx<sy);default:return VC(sxx<=sy);} }
  E x=toE(a,w),y=toE(b,w); switch(p){ case CmpInst::ICMP_EQ:return fromE(mkEq(x,y));case CmpInst::ICMP_NE:return fromE(mkNe(x,y));case CmpInst::ICMP_UGT:return fromE(mkUlt(y,x));case CmpInst::ICMP_UGE:return fromE(mkUle(y,x));case CmpInst::ICMP_ULT:return fromE(mkUlt(x,y));case CmpInst::ICMP_ULE:return fromE(mkUle(x,y));case CmpInst::ICMP_SGT:return fromE(mkSlt(y,x));case CmpInst::ICMP_SGE:return fromE(mkSle(y,x));case CmpInst::ICMP_SLT:return fromE(mkSlt(x,y));default:return fromE(mkSle(x,y)); }
}
static Val selV(const Val&c,const Val&a,const Val&b,u32 w){ if(!c.e) return c.c?a:b; return fromE(mkIte(c.e,toE(a,w),toE(b,w))); }
// pack n lanes of width w into one value / unpack
static E pack(const Val*v,u32 n,u32 w){ if(n==1) return toE(v[0],w); EV p; for(u32 i=0;i<n;i++) p.push_back(toE(v[i],w)); return mkConcat(p); }
static void unpackTo(E e,Val*d,u32 n,u32 w){ for(u32 i=0;i<n;i++) d[i]=fromE(mkExtract(e,i*w,w)); }
static double cD(const Val&v){ if(v.e) engineError("symbolic floating point"); double d; memcpy(&d,&v.c,8); return d; }
static float cF(const Val&v){ if(v.e) engineError("symbolic floating point"); u32 x=v.c; float d; memcpy(&d,&x,4); return d; }
static Val dV(double d){ u64 x; memcpy(&x,&d,8); return VC(x);} static Val fV(float d){ u32 x; memcpy(&x,&d,4); return VC(x);}
// ------------------------------------------------------------------ AES tables (for the AES-NI intrinsics)
static u8 SB[256],ISB[256]; static u8 xt(u8 a){return (a<<1)^((a>>7)*0x1b);} static u8 gm(u8 a,u8 b){ u8 r=0; while(b){ if(b&1) r^=a; a=xt(a); b>>=1;} return r; }
static u32 tabS,tabI,tabS2,tabS3,tabIm[4],tabM[16]; static bool aesInit=false;
static u32 t8(std::function<u8(u8)> f){ Table t; t.iw=8;t.w=8; for(int i=0;i<256;i++) t.v.push_back(APInt(8,f(i))); return internTable(std::move(t)); }
static void initAes(){ if(aesInit) return; aesInit=true; u8 p=1,q=1; do{ p=p^(p<<1)^((p&0x80)?0x1b:0); q^=q<<1;q^=q<<2;q^=q<<4; if(q&0x80) q^=9; u8 x=q^((q<<1)|(q>>7))^((q<<2)|(q>>6))^((q<<3)|(q>>5))^((q<<4)|(q>>4)); SB[p]=x^0x63; }while(p!=1); SB[0]=0x63; for(int i=0;i<256;i++) ISB[SB[i]]=i;
  tabS=t8([](u8 i){return SB[i];}); tabI=t8([](u8 i){return ISB[i];}); for(int m=0;m<16;m++) tabM[m]=t8([m](u8 i){return gm(i,m);}); }
static E mixcol(const EV&s,bool inv){ static const u8 f[4]={2,3,1,1},g[4]={14,11,13,9}; EV o(16); for(int c=0;c<4;c++) for(int r=0;r<4;r++){ EV t; for(int k=0;k<4;k++) t.push_back(mkTbl(tabM[(inv?g:f)[(k-r+4)%4]],s[c*4+k])); o[c*4+r]=mkXor(t);} return mkConcat(o); }
static E aesRound(E x,E k,bool dec,bool last){ initAes(); EV b(16),s(16); for(int i=0;i<16;i++) b[i]=mkExtract(x,8*i,8); for(int c=0;c<4;c++) for(int r=0;r<4;r++){ int src=dec?((c-r+4)%4)*4+r:((c+r)%4)*4+r; s[c*4+r]=mkTbl(dec?tabI:tabS,b[src]); } E m=last?mkConcat(s):mixcol(s,dec); return mkXor(m,k); }
// ------------------------------------------------------------------ intrinsics
static void doCall(Frame&fr,DI&d,Fn*f,const Val*const*args);
static bool intrinsic(Frame&fr,DI&d){
  auto*II=dyn_cast<IntrinsicInst>(d.I); if(!II) return false; u32 w=d.w,n=d.n; Val*D=d.dst>=0?fr.r+d.dst:nullptr; auto A=[&](int i){return op(fr,d.o[i]);};
  std::vector<Val> tmp;
  auto lanes2=[&](std::function<Val(const Val&,const Val&)> f){ const Val*a=A(0),*b=A(1); for(u32 i=0;i<n;i++) D[i]=f(a[i],b[i]); };
  switch(II->getIntrinsicID()){
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:{ u64 len=cint(A(2)[0]); if(len){ u64 dd=cptr(A(0)[0]),ss=cptr(A(1)[0]); memCopy(dd,ss,len);} return true; }
  case Intrinsic::memset: case Intrinsic::memset_inline:{ u64 len=cint(A(2)[0]); if(len) memSetV(cptr(A(0)[0]),A(1)[0],len); return true; }
  case Intrinsic::stacksave: D[0]=VC(0); return true;
  case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: for(u32 i=0;i<n;i++) D[i]=A(0)[i]; return true;
  case Intrinsic::threadlocal_address: D[0]=A(0)[0]; return true;
  case Intrinsic::is_constant: D[0]=VC(0); return true;
  case Intrinsic::objectsize: D[0]=VC(maskw(~0ull,w)); return true;
  case Intrinsic::trap: case Intrinsic::ubsantrap: pathError("trap"); return true;
  case Intrinsic::fptosi_sat: engineError("fptosi_sat"); return true;
  case Intrinsic::eh_typeid_for:{ D[0]=VC((A(0)[0].c>>4)&0x7fffffff); return true; }
  case Intrinsic::bswap: for(u32 i=0;i<n;i++){ const Val&a=A(0)[i]; if(!a.e){ D[i]=VC(w==16?__builtin_bswap16(a.c):w==32?__builtin_bswap32(a.c):__builtin_bswap64(a.c)); if(w<=64) continue; } EV p; for(int b=w/8-1;b>=0;b--) p.push_back(mkExtract(toE(a,w),b*8,8)); D[i]=fromE(mkConcat(p)); } return true;
  case Intrinsic::bitreverse: for(u32 i=0;i<n;i++){ EV p; for(int b=w-1;b>=0;b--) p.push_back(mkExtract(toE(A(0)[i],w),b,1)); D[i]=fromE(mkConcat(p)); } return true;
  case Intrinsic::fshl: case Intrinsic::fshr:{ bool l=II->getIntrinsicID()==Intrinsic::fshl; for(u32 i=0;i<n;i++){ const Val&a=A(0)[i],&b=A(1)[i],&s=A(2)[i]; E x=toE(a,w),y=toE(b,w); if(!s.e){ u64 c=s.c%w; if(!l) c=c?w-c:0; if(!l&&c==0){ D[i]=b; continue;} if(c==0){ D[i]=a; continue; } if(x==y) D[i]=fromE(mkRotl(x,c)); else D[i]=fromE(mkConcat(EV{mkExtract(y,w-c,c),mkExtract(x,0,w-c)})); } else { E sh=mkDiv(UREM,s.e,mkC(w,w)); E cat=mkConcat(EV{y,x}); E s2=mkZext(sh,2*w); E r=l?mkExtract(mkShift(SHL,cat,s2),w,w):mkExtract(mkShift(LSHR,cat,s2),0,w); D[i]=fromE(r);} } return true; }
  case Intrinsic::ctpop: for(u32 i=0;i<n;i++){ const Val&a=A(0)[i]; D[i]=!a.e?VC(__builtin_popcountll(a.c)):fromE(mkPopcnt(a.e)); } return true;
  case Intrinsic::ctlz: for(u32 i=0;i<n;i++){ const Val&a=A(0)[i]; D[i]=!a.e?VC(a.c?__builtin_clzll(a.c)-(64-w):w):fromE(mkClz(a.e)); } return true;
  case Intrinsic::cttz: for(u32 i=0;i<n;i++){ const Val&a=A(0)[i]; D[i]=!a.e?VC(a.c?__builtin_ctzll(a.c):w):fromE(mkCtz(a.e)); } return true;
  case Intrinsic::umax: lanes2([&](const Val&a,const Val&b){return selV(icmp(CmpInst::ICMP_UGT,a,b,w),a,b,w);}); return true;
  case Intrinsic::umin: lanes2([&](const Val&a,const Val&b){return selV(icmp(CmpInst::ICMP_ULT,a,b,w),a,b,w);}); return true;
  case Intrinsic::smax: lanes2([&](const Val&a,const Val&b){return selV(icmp(CmpInst::ICMP_SGT,a,b,w),a,b,w);}); return true;
  case Intrinsic::smin: lanes2([&](const Val&a,const Val&b){return selV(icmp(CmpInst::ICMP_SLT,a,b,w),a,b,w);}); return true;
  case Intrinsic::abs: for(u32 i=0;i<n;i++){ Val a=A(0)[i]; Val ng=binop(Instruction::Sub,VC(0),a,w); D[i]=selV(icmp(CmpInst::ICMP_SLT,a,VC(0),w),ng,a,w);} return true;
  case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow:{ E x=toE(A(0)[0],w),y=toE(A(1)[0],w); auto id=II->getIntrinsicID(); bool sg=id==Intrinsic::sadd_with_overflow||id==Intrinsic::ssub_with_overflow||id==Intrinsic::smul_with_overflow; u32 W=2*w; E X=sg?mkSext(x,W):mkZext(x,W),Y=sg?mkSext(y,W):mkZext(y,W); E R=(id==Intrinsic::uadd_with_overflow||id==Intrinsic::sadd_with_overflow)?mkAdd(X,Y):(id==Intrinsic::usub_with_overflow||id==Intrinsic::ssub_with_overflow)?mkSub(X,Y):mkMul(X,Y); E lo=mkExtract(R,0,w); E ov; if(id==Intrinsic::usub_with_overflow) ov=mkUlt(x,y); else if(id==Intrinsic::uadd_with_overflow) ov=mkUlt(mkAdd(x,y),x); else ov=mkNe(R,sg?mkSext(lo,W):mkZext(lo,W)); D[0]=fromE(lo); D[1]=fromE(ov); return true; }
  case Intrinsic::uadd_sat: lanes2([&](const Val&a,const Val&b){ Val s=binop(Instruction::Add,a,b,w); return selV(icmp(CmpInst::ICMP_ULT,s,a,w),fromE(mkCA(APInt::getAllOnes(w))),s,w);}); return true;
  case Intrinsic::usub_sat: lanes2([&](const Val&a,const Val&b){ Val s=binop(Instruction::Sub,a,b,w); return selV(icmp(CmpInst::ICMP_ULT,a,b,w),VC(0),s,w);}); return true;
  case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_xor: case Intrinsic::vector_reduce_mul:{ auto id=II->getIntrinsicID(); u32 o=id==Intrinsic::vector_reduce_add?Instruction::Add:id==Intrinsic::vector_reduce_or?Instruction::Or:id==Intrinsic::vector_reduce_and?Instruction::And:id==Intrinsic::vector_reduce_mul?Instruction::Mul:Instruction::Xor; Val r=A(0)[0]; for(u32 i=1;i<d.on[0];i++) r=binop(o,r,A(0)[i],w); D[0]=r; return true; }
  case Intrinsic::vector_reduce_umax: case Intrinsic::vector_reduce_umin: case Intrinsic::vector_reduce_smax: case Intrinsic::vector_reduce_smin:{ auto id=II->getIntrinsicID(); u32 p=id==Intrinsic::vector_reduce_umax?CmpInst::ICMP_UGT:id==Intrinsic::vector_reduce_umin?CmpInst::ICMP_ULT:id==Intrinsic::vector_reduce_smax?CmpInst::ICMP_SGT:CmpInst::ICMP_SLT; Val r=A(0)[0]; for(u32 i=1;i<d.on[0];i++) r=selV(icmp(p,r,A(0)[i],w),r,A(0)[i],w); D[0]=r; return true; }
  case Intrinsic::fabs: D[0]=w==64?dV(fabs(cD(A(0)[0]))):fV(fabsf(cF(A(0)[0]))); return true;
  case Intrinsic::floor: D[0]=w==64?dV(floor(cD(A(0)[0]))):fV(floorf(cF(A(0)[0]))); return true;
  case Intrinsic::ceil: D[0]=w==64?dV(ceil(cD(A(0)[0]))):fV(ceilf(cF(A(0)[0]))); return true;
  case Intrinsic::sqrt: D[0]=w==64?dV(sqrt(cD(A(0)[0]))):fV(sqrtf(cF(A(0)[0]))); return true;
  case Intrinsic::fmuladd: D[0]=w==64?dV(cD(A(0)[0])*cD(A(1)[0])+cD(A(2)[0])):fV(cF(A(0)[0])*cF(A(1)[0])+cF(A(2)[0])); return true;
  case Intrinsic::masked_load:{ u64 p=cptr(A(0)[0]); for(u32 i=0;i<n;i++){ const Val&m=A(2)[i]; if(m.e) engineError("masked.load symbolic"); D[i]=m.c?loadC(p+i*w/8,w/8):A(3)[i]; } return true; }
  case Intrinsic::masked_store:{ u64 p=cptr(A(1)[0]); u32 sw=d.ow[0]; for(u32 i=0;i<d.on[0];i++){ const Val&m=A(3)[i]; if(m.e) engineError("masked.store symbolic"); if(m.c) storeC(p+i*sw/8,sw/8,A(0)[i]); } return true; }
  default: break; }
  // x86
  auto A8=[&](int k){ return pack(A(k),d.on[k],d.ow[k]); };
  switch(II->getIntrinsicID()){
  case Intrinsic::x86_aesni_aesenc: unpackTo(aesRound(A8(0),A8(1),false,false),D,n,w); return true;
  case Intrinsic::x86_aesni_aesenclast: unpackTo(aesRound(A8(0),A8(1),false,true),D,n,w); return true;
  case Intrinsic::x86_aesni_aesdec: unpackTo(aesRound(A8(0),A8(1),true,false),D,n,w); return true;
  case Intrinsic::x86_aesni_aesdeclast: unpackTo(aesRound(A8(0),A8(1),true,true),D,n,w); return true;
  case Intrinsic::x86_aesni_aesimc:{ initAes(); E x=A8(0); EV b(16); for(int i=0;i<16;i++) b[i]=mkExtract(x,8*i,8); unpackTo(mixcol(b,true),D,n,w); return true; }
  case Intrinsic::x86_aesni_aeskeygenassist:{ initAes(); E x=A8(0); u64 rc=A(1)[0].c; EV o(16); auto sb=[&](int i){return mkTbl(tabS,mkExtract(x,8*i,8));}; for(int h=0;h<2;h++){ int b=h==0?4:12; EV s{sb(b),sb(b+1),sb(b+2),sb(b+3)}; for(int i=0;i<4;i++) o[h*8+i]=s[i]; for(int i=0;i<4;i++) o[h*8+4+i]=s[(i+1)%4]; o[h*8+4]=mkXor(o[h*8+4],mkC(8,rc)); } unpackTo(mkConcat(o),D,n,w); return true; }
  case Intrinsic::x86_pclmulqdq:{ u64 im=A(2)[0].c; E a=toE(A(0)[im&1],64),b=toE(A(1)[(im>>4)&1],64); unpackTo(mkClmul(a,b),D,2,64); return true; }
  case Intrinsic::x86_ssse3_pshuf_b_128: case Intrinsic::x86_avx2_pshuf_b:{ const Val*a=A(0),*m=A(1); tmp.resize(n); for(u32 i=0;i<n;i++){ u32 base=i/16*16; if(m[i].e){ E r=mkC(8,0); E ix=mkExtract(m[i].e,0,4); r=toE(a[base],8); for(int k=1;k<16;k++) r=mkIte(mkEq(ix,mkC(4,k)),toE(a[base+k],8),r); tmp[i]=fromE(mkIte(mkExtract(m[i].e,7,1),mkC(8,0),r)); } else tmp[i]=(m[i].c&0x80)?VC(0):a[base+(m[i].c&15)]; } for(u32 i=0;i<n;i++) D[i]=tmp[i]; return true; }
  case Intrinsic::x86_avx2_permd:{ const Val*a=A(0),*m=A(1); tmp.resize(n); for(u32 i=0;i<n;i++){ if(m[i].e){ E r=toE(a[0],32),ix=mkExtract(m[i].e,0,3); for(u32 k=1;k<8;k++) r=mkIte(mkEq(ix,mkC(3,k)),toE(a[k],32),r); tmp[i]=fromE(r); } else tmp[i]=a[m[i].c&7]; } for(u32 i=0;i<n;i++) D[i]=tmp[i]; return true; }
  case Intrinsic::x86_sse2_psll_d: case Intrinsic::x86_sse2_psll_q: case Intrinsic::x86_sse2_psll_w: case Intrinsic::x86_avx2_psll_d: case Intrinsic::x86_avx2_psll_q: case Intrinsic::x86_avx2_psll_w:
  case Intrinsic::x86_sse2_psrl_d: case Intrinsic::x86_sse2_psrl_q: case Intrinsic::x86_sse2_psrl_w: case Intrinsic::x86_avx2_psrl_d: case Intrinsic::x86_avx2_psrl_q: case Intrinsic::x86_avx2_psrl_w:
  case Intrinsic::x86_sse2_psra_d: case Intrinsic::x86_sse2_psra_w: case Intrinsic::x86_avx2_psra_d: case Intrinsic::x86_avx2_psra_w:
  case Intrinsic::x86_sse2_pslli_d: case Intrinsic::x86_sse2_pslli_q: case Intrinsic::x86_sse2_pslli_w: case Intrinsic::x86_avx2_pslli_d: case Intrinsic::x86_avx2_pslli_q: case Intrinsic::x86_avx2_pslli_w:
  case Intrinsic::x86_sse2_psrli_d: case Intrinsic::x86_sse2_psrli_q: case Intrinsic::x86_sse2_psrli_w: case Intrinsic::x86_avx2_psrli_d: case Intrinsic::x86_avx2_psrli_q: case Intrinsic::x86_avx2_psrli_w:
  case Intrinsic::x86_sse2_psrai_d: case Intrinsic::x86_sse2_psrai_w: case Intrinsic::x86_avx2_psrai_d: case Intrinsic::x86_avx2_psrai_w:{
    StringRef nm=II->getCalledFunction()->getName(); bool sll=nm.contains("psll"),sra=nm.contains("psra"); E s=d.on[1]>1?mkExtract(pack(A(1),d.on[1],d.ow[1]),0,64):mkZext(toE(A(1)[0],d.ow[1]),64);
    for(u32 i=0;i<n;i++){ E x=toE(A(0)[i],w); if(isC(s)){ u64 c=cu64(s); D[i]=fromE(sll?mkShlC(x,c>w?w:c):sra?mkAshrC(x,c>w?w:c):mkLshrC(x,c>w?w:c)); } else { E sw=mkExtract(s,0,w); E big=mkUlt(mkC(64,w-1),s); E r=mkShift(sll?SHL:sra?ASHR:LSHR,x,sw); E sat=sra?mkAshrC(x,w-1):mkC(w,0); D[i]=fromE(mkIte(big,sat,r)); } } return true; }
  case Intrinsic::x86_avx2_psllv_d: case Intrinsic::x86_avx2_psllv_d_256: case Intrinsic::x86_avx2_psllv_q: case Intrinsic::x86_avx2_psllv_q_256: lanes2([&](const Val&a,const Val&b){ return fromE(mkShift(SHL,toE(a,w),toE(b,w)));}); return true;
  case Intrinsic::x86_avx2_psrlv_d: case Intrinsic::x86_avx2_psrlv_d_256: case Intrinsic::x86_avx2_psrlv_q: case Intrinsic::x86_avx2_psrlv_q_256: lanes2([&](const Val&a,const Val&b){ return fromE(mkShift(LSHR,toE(a,w),toE(b,w)));}); return true;
  case Intrinsic::x86_sse2_pmulh_w: case Intrinsic::x86_avx2_pmulh_w: lanes2([&](const Val&a,const Val&b){ return fromE(mkExtract(mkMul(mkSext(toE(a,16),32),mkSext(toE(b,16),32)),16,16));}); return true;
  case Intrinsic::x86_sse2_pmulhu_w: case Intrinsic::x86_avx2_pmulhu_w: lanes2([&](const Val&a,const Val&b){ return fromE(mkExtract(mkMul(mkZext(toE(a,16),32),mkZext(toE(b,16),32)),16,16));}); return true;
  case Intrinsic::x86_sse2_pmadd_wd: case Intrinsic::x86_avx2_pmadd_wd:{ const Val*a=A(0),*b=A(1); tmp.resize(n); for(u32 i=0;i<n;i++) tmp[i]=fromE(mkAdd(mkMul(mkSext(toE(a[2*i],16),32),mkSext(toE(b[2*i],16),32)),mkMul(mkSext(toE(a[2*i+1],16),32),mkSext(toE(b[2*i+1],16),32)))); for(u32 i=0;i<n;i++) D[i]=tmp[i]; return true; }
  case Intrinsic::x86_ssse3_pmul_hr_sw_128: case Intrinsic::x86_avx2_pmul_hr_sw: lanes2([&](const Val&a,const Val&b){ return fromE(mkExtract(mkAdd(mkAshrC(mkMul(mkSext(toE(a,16),32),mkSext(toE(b,16),32)),14),mkC(32,1)),1,16));}); return true;
  case Intrinsic::x86_ssse3_pmadd_ub_sw_128: case Intrinsic::x86_avx2_pmadd_ub_sw:{ const Val*a=A(0),*b=A(1); tmp.resize(n); for(u32 i=0;i<n;i++){ E s=mkAdd(mkMul(mkZext(toE(a[2*i],8),32),mkSext(toE(b[2*i],8),32)),mkMul(mkZext(toE(a[2*i+1],8),32),mkSext(toE(b[2*i+1],8),32))); tmp[i]=fromE(satS(s,16)); } for(u32 i=0;i<n;i++) D[i]=tmp[i]; return true; }
  case Intrinsic::x86_sse2_packuswb_128: case Intrinsic::x86_avx2_packuswb: case Intrinsic::x86_sse2_packsswb_128: case Intrinsic::x86_avx2_packsswb: case Intrinsic::x86_sse2_packssdw_128: case Intrinsic::x86_avx2_packssdw: case Intrinsic::x86_sse41_packusdw: case Intrinsic::x86_avx2_packusdw:{ bool us=II->getCalledFunction()->getName().contains("packus"); u32 per=128/w,h=per/2; tmp.resize(n); for(u32 i=0;i<n;i++){ u32 lane=i/per,k=i%per; const Val&v=(k<h?A(0):A(1))[lane*h+k%h]; E x=toE(v,2*w); tmp[i]=fromE(us?satU(x,w):satS(x,w)); } for(u32 i=0;i<n;i++) D[i]=tmp[i]; return true; }
  case Intrinsic::x86_avx2_gather_q_q_256: case Intrinsic::x86_avx2_gather_q_q: case Intrinsic::x86_avx2_gather_d_q_256: case Intrinsic::x86_avx2_gather_q_d_256: case Intrinsic::x86_avx2_gather_d_d_256: case Intrinsic::x86_avx2_gather_d_d:{ Val bs=A(1)[0]; u64 sc=A(4)[0].c; tmp.resize(n); for(u32 i=0;i<n;i++){ Val m=A(3)[i],x=A(2)[i]; if(m.e||bs.e) engineError("gather sym"); if(!((m.c>>(w-1))&1)){ tmp[i]=A(0)[i]; continue; } if(x.e) engineError("gather sym index"); u64 ix=d.ow[2]==32?(u64)(int64_t)(int32_t)x.c:x.c; tmp[i]=loadC(bs.c+ix*sc,w/8); } for(u32 i=0;i<n;i++) D[i]=tmp[i]; return true; }
  case Intrinsic::x86_bmi_pext_32: case Intrinsic::x86_bmi_pext_64:{ if(A(1)[0].e) engineError("pext sym"); EV p; for(u32 i=0;i<w;i++) if((A(1)[0].c>>i)&1) p.push_back(mkExtract(toE(A(0)[0],w),i,1)); if(p.empty()) p.push_back(mkC(1,0)); D[0]=fromE(mkZext(mkConcat(p),w)); return true; }
  case Intrinsic::x86_sse41_ptestz: case Intrinsic::x86_avx_ptestz_256: D[0]=fromE(mkZext(mkEq(mkAnd(A8(0),A8(1)),mkC(d.on[0]*d.ow[0],0)),32)); return true;
  case Intrinsic::x86_sse41_ptestc: case Intrinsic::x86_avx_ptestc_256: D[0]=fromE(mkZext(mkEq(mkAnd(mkNot(A8(0)),A8(1)),mkC(d.on[0]*d.ow[0],0)),32)); return true;
  case Intrinsic::x86_sse2_pmovmskb_128: case Intrinsic::x86_avx2_pmovmskb:{ EV p; for(u32 i=0;i<d.on[0];i++) p.push_back(mkExtract(toE(A(0)[i],8),7,1)); E r=mkConcat(p); D[0]=fromE(mkZext(r,32)); return true; }
  case Intrinsic::x86_sse2_psad_bw: case Intrinsic::x86_avx2_psad_bw:{ tmp.resize(n); for(u32 i=0;i<n;i++){ EV t; for(int k=0;k<8;k++){ E x=toE(A(0)[i*8+k],8),y=toE(A(1)[i*8+k],8); t.push_back(mkZext(mkIte(mkUlt(x,y),mkSub(y,x),mkSub(x,y)),64)); } tmp[i]=fromE(mkAdd(t)); } for(u32 i=0;i<n;i++) D[i]=tmp[i]; return true; }
  case Intrinsic::x86_avx_blendv_ps_256: case Intrinsic::x86_sse41_blendvps: case Intrinsic::x86_avx_blendv_pd_256: case Intrinsic::x86_sse41_blendvpd:{ const Val*a=A(0),*b=A(1),*m=A(2); tmp.resize(n); for(u32 i=0;i<n;i++) tmp[i]=!m[i].e?(((m[i].c>>(w-1))&1)?b[i]:a[i]):fromE(mkIte(mkExtract(m[i].e,w-1,1),toE(b[i],w),toE(a[i],w))); for(u32 i=0;i<n;i++) D[i]=tmp[i]; return true; }
  case Intrinsic::x86_sse41_pblendvb: case Intrinsic::x86_avx2_pblendvb:{ const Val*a=A(0),*b=A(1),*m=A(2); tmp.resize(n); for(u32 i=0;i<n;i++) tmp[i]=!m[i].e?((m[i].c&0x80)?b[i]:a[i]):fromE(mkIte(mkExtract(m[i].e,7,1),toE(b[i],8),toE(a[i],8))); for(u32 i=0;i<n;i++) D[i]=tmp[i]; return true; }
  case Intrinsic::x86_sha256msg1:{ EV W; for(int i=0;i<4;i++) W.push_back(toE(A(0)[i],32)); W.push_back(toE(A(1)[0],32)); for(int i=0;i<4;i++){ E x=W[i+1]; E s0=mkXor(EV{mkRotl(x,25),mkRotl(x,14),mkLshrC(x,3)}); tmp.push_back(fromE(mkAdd(W[i],s0))); } for(int i=0;i<4;i++) D[i]=tmp[i]; return true; }
  case Intrinsic::x86_sha256msg2:{ auto s1=[&](E x){return mkXor(EV{mkRotl(x,15),mkRotl(x,13),mkLshrC(x,10)});}; E a0=toE(A(0)[0],32),a1=toE(A(0)[1],32),a2=toE(A(0)[2],32),a3=toE(A(0)[3],32),b2=toE(A(1)[2],32),b3=toE(A(1)[3],32); E w16=mkAdd(a0,s1(b2)),w17=mkAdd(a1,s1(b3)),w18=mkAdd(a2,s1(w16)),w19=mkAdd(a3,s1(w17)); D[0]=fromE(w16);D[1]=fromE(w17);D[2]=fromE(w18);D[3]=fromE(w19); return true; }
  case Intrinsic::x86_sha256rnds2:{ const Val*s1=A(0),*s2=A(1),*k=A(2); E a=toE(s2[3],32),b=toE(s2[2],32),c=toE(s1[3],32),dd=toE(s1[2],32),e=toE(s2[1],32),f=toE(s2[0],32),g=toE(s1[1],32),h=toE(s1[0],32); E wk[2]={toE(k[0],32),toE(k[1],32)}; for(int i=0;i<2;i++){ E ch=mkXor(mkAnd(e,f),mkAnd(mkNot(e),g)); E S1=mkXor(EV{mkRotl(e,26),mkRotl(e,21),mkRotl(e,7)}); E mj=mkXor(EV{mkAnd(a,b),mkAnd(a,c),mkAnd(b,c)}); E S0=mkXor(EV{mkRotl(a,30),mkRotl(a,19),mkRotl(a,10)}); E t1=mkAdd(EV{ch,S1,wk[i],h}); E na=mkAdd(EV{t1,mj,S0}); E ne=mkAdd(t1,dd); h=g;g=f;f=e;e=ne;dd=c;c=b;b=a;a=na; } D[3]=fromE(a);D[2]=fromE(b);D[1]=fromE(e);D[0]=fromE(f); return true; }
  case Intrinsic::x86_addcarry_64: case Intrinsic::x86_addcarry_32: case Intrinsic::x86_subborrow_64: case Intrinsic::x86_subborrow_32:{ u32 ww=d.ow[1]; bool sub=II->getCalledFunction()->getName().contains("subborrow"); E ci=mkZext(mkNe(toE(A(0)[0],8),mkC(8,0)),ww+1); E x=mkZext(toE(A(1)[0],ww),ww+1),y=mkZext(toE(A(2)[0],ww),ww+1); E r=sub?mkSub(mkSub(x,y),ci):mkAdd(EV{x,y,ci}); D[0]=fromE(mkZext(mkExtract(r,ww,1),8)); D[1]=fromE(mkExtract(r,0,ww)); return true; }
  default: break; }
  engineError("unsupported intrinsic "+II->getCalledFunction()->getName().str()); return true;
}
// ------------------------------------------------------------------ exceptions
struct Exc { u64 obj; u64 tinfo; };
static std::unordered_map<u64,u64> excT; // object -> typeinfo
static std::vector<u64> caught; static u64 unwinding=0;
static bool isDerived(u64 t,u64 base,int depth=0){ if(t==base) return true; if(depth>12||!t) return false; int id=findObj(t); if(id<0) return false; Obj&o=objs[id]; if(o.name){ // compare mangled type names as well
    int ib=findObj(base); if(ib>=0&&objs[ib].name&&!strcmp(o.name,objs[ib].name)) return true; }
  u64 off=t-o.base; if(off+24<=o.size){ u64 b; memcpy(&b,o.data+off+16,8); int ib=findObj(b); if(ib>=0&&objs[ib].name&&!strncmp(objs[ib].name,"_ZTI",4)) return isDerived(b,base,depth+1); // vmi: flags,count then bases
    if(off+32<=o.size){ u32 cnt; memcpy(&cnt,o.data+off+20,4); for(u32 i=0;i<cnt&&i<8&&off+24+16*(i+1)<=o.size;i++){ memcpy(&b,o.data+off+24+16*i,8); int ic=findObj(b); if(ic>=0&&objs[ic].name&&!strncmp(objs[ic].name,"_ZTI",4)&&isDerived(b,base,depth+1)) return true; } } }
  return false; }
static void popFrame(){ Frame&f=st.back(); for(size_t i=objs.size();i>f.objMark;){ --i; Obj&o=objs[i]; if(o.kind==2&&o.alive) freeObjMem(o); }
  // drop trailing dead stack objects to keep the table small
  while(objs.size()>f.objMark&&!objs.back().alive&&objs.back().kind==2){ Obj&o=objs.back(); for(u64 g=(o.base-RS.base)/GR;g*GR+RS.base<o.base+(o.size?o.size:1);g++) RS.map[g]=~0u; objs.pop_back(); }
  RS.top=f.stackTop; if(RS.map.size()>RS.top/GR) { for(u64 g=RS.top/GR;g<RS.map.size();g++) RS.map[g]=~0u; }
  regTop=f.r-regStack; st.pop_back(); }
static void pathEnd(){ finishProcess(0); }
static bool expectUncaught=false;
static void unwind(u64 exc){
  u64 ti=excT[exc];
  while(!st.empty()){
    Frame&fr=st.back(); DI&d=fr.f->code[fr.pc];
    if(d.op==Instruction::Invoke){ Edge&e=fr.f->edges[d.e1]; DI&lpd=fr.f->code[e.target]; auto*lp=dyn_cast<LandingPadInst>(lpd.I); if(!lp) engineError("no landingpad");
      u64 sel=0; bool hit=lp->isCleanup(); for(unsigned i=0;i<lp->getNumClauses()&&!sel;i++){ if(lp->isCatch(i)){ Constant*c=cast<Constant>(lp->getClause(i)->stripPointerCasts()); u64 t=isa<ConstantPointerNull>(c)?0:constU(c); if(!t||isDerived(ti,t)){ sel=t?((t>>4)&0x7fffffff):0x7fffffff; hit=true; break; } } else { if(lp->getClause(i)->getType()->isArrayTy()&&cast<ArrayType>(lp->getClause(i)->getType())->getNumElements()==0) pathError("exception escapes a noexcept function"); } }
      if(hit){ std::vector<Val> t; for(auto&m:e.moves) for(int k=0;k<m.n;k++) t.push_back(op(fr,m.src)[k]); size_t q=0; for(auto&m:e.moves) for(int k=0;k<m.n;k++) fr.r[m.dst+k]=t[q++]; fr.r[lpd.dst]=VC(exc); fr.r[lpd.dst+1]=VC(sel); fr.pc=e.target+1; return; } }
    popFrame(); if(!st.empty()&&st.back().f==nullptr) break;
  }
  std::string n="?"; int id=findObj(ti); if(id>=0&&objs[id].name) n=objs[id].name; pathError("uncaught exception "+n);
}
#include "builtins.inc"
// ------------------------------------------------------------------ calls
static void pushFrame(Fn*f,const std::vector<Val>&args,int retDst,int retN,DI*call){
  if(!f->decoded) decode(f); f->used=true;
  if(st.size()>3000) pathError("stack overflow (call depth)");
  Frame fr; fr.f=f; fr.r=regStack+regTop; if(regTop+f->nslots+16>REGCAP) engineError("register stack"); regTop+=f->nslots; for(int i=0;i<f->nslots;i++) fr.r[i]=VC(0); for(size_t i=0;i<args.size();i++) fr.r[i]=args[i]; fr.pc=0; fr.objMark=objs.size(); fr.stackTop=RS.top; fr.retDst=retDst; fr.retN=retN; fr.call=call; st.push_back(fr); }
static void takeEdge(Frame&fr,int ei){ Edge&e=fr.f->edges[ei]; if(e.moves.size()==1&&e.moves[0].n==1){ fr.r[e.moves[0].dst]=*op(fr,e.moves[0].src);} else if(!e.moves.empty()){ static std::vector<Val> t; t.clear(); for(auto&m:e.moves){ const Val*s=op(fr,m.src); for(int k=0;k<m.n;k++) t.push_back(s[k]); } size_t q=0; for(auto&m:e.moves) for(int k=0;k<m.n;k++) fr.r[m.dst+k]=t[q++]; } fr.pc=e.target; }
static std::set<std::string> usedFns;
static void run(size_t base){
  while(st.size()>base){
    Frame&fr=st.back(); DI&d=fr.f->code[fr.pc]; instCount++;
    if((instCount&0xfffff)==0){ if(now()-t_start>optTime||instCount>optMaxInst){ if(optVerbose) fprintf(stderr,"TIMEOUT\n%s",where().c_str()); INC(timeouts); finishProcess(0);} if(g_byid.size()>g_nodeLimit) { INC(timeouts); finishProcess(0);} }
    Val*D=d.dst>=0?fr.r+d.dst:nullptr;
    switch(d.op){
    case Instruction::Add:case Instruction::Sub:case Instruction::Mul:case Instruction::And:case Instruction::Or:case Instruction::Xor:case Instruction::Shl:case Instruction::LShr:case Instruction::AShr:case Instruction::UDiv:case Instruction::URem:case Instruction::SDiv:case Instruction::SRem:{ const Val*a=op(fr,d.o[0]),*b=op(fr,d.o[1]); for(u32 i=0;i<d.n;i++) D[i]=binop(d.op,a[i],b[i],d.w); fr.pc++; break; }
    case Instruction::ICmp:{ const Val*a=op(fr,d.o[0]),*b=op(fr,d.o[1]); for(u32 i=0;i<d.n;i++) D[i]=icmp(d.sub,a[i],b[i],d.ow[0]); fr.pc++; break; }
    case Instruction::Select:{ const Val*c=op(fr,d.o[0]),*a=op(fr,d.o[1]),*b=op(fr,d.o[2]); bool vc=d.on[0]>1; std::vector<u32> lw; if(!d.ty->isVectorTy()&&d.n>1) leaves(d.ty,lw); for(u32 i=0;i<d.n;i++) D[i]=selV(c[vc?i:0],a[i],b[i],lw.empty()?d.w:lw[i]); fr.pc++; break; }
    case Instruction::ZExt:{ const Val*a=op(fr,d.o[0]); for(u32 i=0;i<d.n;i++) D[i]=(!a[i].e&&d.w<=64)?a[i]:fromE(mkZext(toE(a[i],d.ow[0]),d.w)); fr.pc++; break; }
    case Instruction::SExt:{ const Val*a=op(fr,d.o[0]); for(u32 i=0;i<d.n;i++) D[i]=(!a[i].e&&d.w<=64)?VC(maskw((u64)sx(a[i].c,d.ow[0]),d.w)):fromE(mkSext(toE(a[i],d.ow[0]),d.w)); fr.pc++; break; }
    case Instruction::Trunc:{ const Val*a=op(fr,d.o[0]); for(u32 i=0;i<d.n;i++) D[i]=!a[i].e?VC(maskw(a[i].c,d.w)):fromE(mkExtract(a[i].e,0,d.w)); fr.pc++; break; }
    case Instruction::PtrToInt: case Instruction::IntToPtr:{ const Val*a=op(fr,d.o[0]); for(u32 i=0;i<d.n;i++){ if(!a[i].e) D[i]=VC(maskw(a[i].c,d.w)); else D[i]=d.w<d.ow[0]?fromE(mkExtract(a[i].e,0,d.w)):d.w>d.ow[0]?fromE(mkZext(a[i].e,d.w)):a[i]; } fr.pc++; break; }
    case Instruction::BitCast:{ const Val*a=op(fr,d.o[0]); u32 wn=d.w,wo=d.ow[0]; if(wn==wo&&d.n==d.on[0]) for(u32 i=0;i<d.n;i++) D[i]=a[i];
      else { bool conc=true; for(u32 i=0;i<d.on[0];i++) if(a[i].e) conc=false; if(conc&&wn<=64&&wo<=64&&wn%8==0&&wo%8==0){ u8 buf[128]; u32 ob=wo/8,nb=wn/8; Val t[64]; for(u32 i=0;i<d.on[0];i++) memcpy(buf+i*ob,&a[i].c,ob); for(u32 i=0;i<d.n;i++){ u64 x=0; memcpy(&x,buf+i*nb,nb); t[i]=VC(x);} for(u32 i=0;i<d.n;i++) D[i]=t[i]; }
        else if(wn>wo&&wn%wo==0&&d.n>1){ u32 k=wn/wo; std::vector<Val> t(d.n); for(u32 i=0;i<d.n;i++) t[i]=fromE(pack(a+i*k,k,wo)); for(u32 i=0;i<d.n;i++) D[i]=t[i]; }
        else if(wo>wn&&wo%wn==0){ u32 k=wo/wn; std::vector<Val> t(d.n); for(u32 i=0;i<d.n;i++) t[i]=a[i/k].e?fromE(mkExtract(a[i/k].e,(i%k)*wn,wn)):VC(maskw(a[i/k].c>>((i%k)*wn),wn)); for(u32 i=0;i<d.n;i++) D[i]=t[i]; }
        else { E e=pack(a,d.on[0],wo); unpackTo(e,D,d.n,wn); } } fr.pc++; break; }
    case Instruction::Freeze: case Instruction::AddrSpaceCast:{ const Val*a=op(fr,d.o[0]); for(u32 i=0;i<d.n;i++) D[i]=a[i]; fr.pc++; break; }
    case Instruction::GetElementPtr:{ Val p=*op(fr,d.o[0]); u64 c=d.imm; EV t; for(auto&g:d.gi){ const Val&x=*op(fr,g.o); if(!x.e) c+=(u64)sx(x.c,g.w)*g.scale; else t.push_back(mkMul(mkC(64,g.scale),g.w<64?mkSext(x.e,64):mkExtract(x.e,0,64))); } if(t.empty()&&!p.e) *D=VC(p.c+c); else { t.push_back(toE(p,64)); t.push_back(mkC(64,c)); *D=fromE(mkAdd(t)); } fr.pc++; break; }
    case Instruction::Alloca:{ const Val&n=*op(fr,d.o[0]); u64 cnt=n.e?cint(n):n.c; u32 id=newObj(d.imm*cnt,2,d.w2); *D=VC(objs[id].base); fr.pc++; break; }
    case Instruction::Load:{ Val p=*op(fr,d.o[0]); if(p.e) p=resolveIte(p); if(d.lay.size()==1){ u32 w=d.lay[0].second; Val v=loadV(p,d.imm); if(w<d.imm*8) v=v.e?fromE(mkExtract(v.e,0,w)):VC(maskw(v.c,w)); *D=v; }
      else if(!p.e){ u32 id=checkAcc(p.c,d.imm,false); Obj&o=objs[id]; u64 off=p.c-o.base; bool al=true; for(auto&l:d.lay) if(l.first%8||l.second%8) al=false; if(al) for(size_t i=0;i<d.lay.size();i++) D[i]=loadFrom(o,off+d.lay[i].first/8,d.lay[i].second/8); else { E e=toE(loadFrom(o,off,d.imm),d.imm*8); for(size_t i=0;i<d.lay.size();i++) D[i]=fromE(mkExtract(e,d.lay[i].first,d.lay[i].second)); } }
      else { E e=toE(loadSym(p,d.imm),d.imm*8); for(size_t i=0;i<d.lay.size();i++) D[i]=fromE(mkExtract(e,d.lay[i].first,d.lay[i].second)); } st.back().pc++; break; }
    case Instruction::Store:{ const Val*v=op(fr,d.o[0]); Val p=*op(fr,d.o[1]); if(p.e) p=resolveIte(p); if(d.lay.size()==1){ u32 w=d.lay[0].second; Val x=*v; if(w<d.imm*8&&x.e) x=fromE(mkZext(x.e,d.imm*8)); storeV(p,d.imm,x); }
      else { bool al=true; for(auto&l:d.lay) if(l.first%8||l.second%8) al=false; if(!p.e&&al){ u32 id=checkAcc(p.c,d.imm,true); Obj&o=objs[id]; u64 off=p.c-o.base; for(size_t i=0;i<d.lay.size();i++) storeTo(o,off+d.lay[i].first/8,d.lay[i].second/8,v[i]); } else { E e=pack(v,d.on[0],d.ow[0]); if(e->w<d.imm*8) e=mkZext(e,d.imm*8); storeV(p,d.imm,fromE(e)); } } fr.pc++; break; }
    case Instruction::ExtractElement:{ const Val*a=op(fr,d.o[0]); const Val&ix=*op(fr,d.o[1]); if(!ix.e){ *D=a[ix.c%d.on[0]]; } else { E r=toE(a[0],d.w); for(u32 i=1;i<d.on[0];i++) r=mkIte(mkEq(ix.e,mkC(d.ow[1],i)),toE(a[i],d.w),r); *D=fromE(r);} fr.pc++; break; }
    case Instruction::InsertElement:{ const Val*a=op(fr,d.o[0]); Val v=*op(fr,d.o[1]); Val ix=*op(fr,d.o[2]); for(u32 i=0;i<d.n;i++){ if(!ix.e) D[i]=i==ix.c?v:a[i]; else D[i]=fromE(mkIte(mkEq(ix.e,mkC(d.ow[2],i)),toE(v,d.w),toE(a[i],d.w))); } fr.pc++; break; }
    case Instruction::ShuffleVector:{ const Val*a=op(fr,d.o[0]),*b=op(fr,d.o[1]); Val t[128]; for(u32 i=0;i<d.n;i++){ int m=d.mask[i]; t[i]=m<0?VC(0):m<(int)d.on[0]?a[m]:b[m-d.on[0]]; if(m<0&&d.w>64) t[i]=fromE(mkC(d.w,0)); } for(u32 i=0;i<d.n;i++) D[i]=t[i]; fr.pc++; break; }
    case Instruction::ExtractValue:{ const Val*a=op(fr,d.o[0])+d.imm; for(u32 i=0;i<d.n;i++) D[i]=a[i]; fr.pc++; break; }
    case Instruction::InsertValue:{ const Val*a=op(fr,d.o[0]),*v=op(fr,d.o[1]); for(u32 i=0;i<d.n;i++) D[i]=(i>=d.imm&&i<d.imm+d.on[1])?v[i-d.imm]:a[i]; fr.pc++; break; }
    case Instruction::Br:{ if(d.e1<0){ takeEdge(fr,d.e0); break; } Val c=*op(fr,d.o[0]); bool t=c.e?decide(c.e):c.c; takeEdge(st.back(),t?d.e0:d.e1); break; }
    case Instruction::Switch:{ Val c=*op(fr,d.o[0]); int e=d.e0; if(!c.e){ for(auto&s:d.sw) if(s.first==c.c){ e=s.second; break; } } else { for(auto&s:d.sw) if(decide(mkEq(c.e,mkC(d.ow[0],s.first)))){ e=s.second; break; } } takeEdge(st.back(),e); break; }
    case Instruction::Ret:{ Val rv[64]; u32 n=0; if(!d.o.empty()){ const Val*v=op(fr,d.o[0]); n=d.on[0]; for(u32 i=0;i<n;i++) rv[i]=v[i]; } int rd=fr.retDst; DI*call=fr.call; popFrame(); if(st.size()<=base) return; Frame&cf=st.back(); if(rd>=0) for(u32 i=0;i<n;i++) cf.r[rd+i]=rv[i]; if(call&&call->op==Instruction::Invoke) takeEdge(cf,call->e0); else cf.pc++; break; }
    case Instruction::Call: case Instruction::Invoke:{
      if(d.sub==1){ auto*ia=cast<InlineAsm>(cast<CallBase>(d.I)->getCalledOperand()); std::string as=ia->getAsmString(); if(as.empty()||as.find("pause")!=std::string::npos||as.find("fence")!=std::string::npos){ for(u32 i=0;i<d.n;i++) D[i]=d.o.size()>1?*op(fr,d.o[0]):VC(0); fr.pc++; break; } engineError("inline asm "+as); }
      Fn*f=d.callee; if(!f){ Val fp=*op(fr,d.o.back()); u64 a=cptr(fp); auto it=fnByAddr.find(a); if(it==fnByAddr.end()){ char b[80]; snprintf(b,80,"call through invalid pointer 0x%llx",(unsigned long long)a); pathError(b);} f=it->second; }
      if(f->F->isIntrinsic()){ if(!intrinsic(fr,d)) engineError("intrinsic"); Frame&c=st.back(); if(d.op==Instruction::Invoke) takeEdge(c,d.e0); else c.pc++; break; }
      if(f->builtin>=0){ size_t depth=st.size(); int pc=fr.pc; int r=builtin(f,fr,d); if(r==1){ Frame&c=st.back(); if(d.op==Instruction::Invoke) takeEdge(c,d.e0); else c.pc++; } break; }
      if(f->F->isDeclaration()){ engineError("unresolved external "+f->name); }
      std::vector<Val> args; u32 na=d.imm; for(u32 i=0;i<na;i++){ const Val*v=op(fr,d.o[i]); for(u32 k=0;k<d.on[i];k++) args.push_back(v[k]); } if(f->F->isVarArg()) args.resize(f->F->arg_size());
      pushFrame(f,args,d.dst,d.n,&d); break; }
    case Instruction::Resume:{ const Val*v=op(fr,d.o[0]); u64 ex=v[0].c; popFrame(); unwind(ex); break; }
    case Instruction::Unreachable: pathError("unreachable code reached"); break;
    case Instruction::LandingPad: engineError("landingpad executed"); break;
    case Instruction::Fence: fr.pc++; break;
    case Instruction::AtomicRMW:{ u64 p=cptr(*op(fr,d.o[0])); Val old=loadC(p,d.w/8); Val v=*op(fr,d.o[1]); Val nv; switch(d.sub){ case AtomicRMWInst::Xchg:nv=v;break; case AtomicRMWInst::Add:nv=binop(Instruction::Add,old,v,d.w);break; case AtomicRMWInst::Sub:nv=binop(Instruction::Sub,old,v,d.w);break; case AtomicRMWInst::And:nv=binop(Instruction::And,old,v,d.w);break; case AtomicRMWInst::Or:nv=binop(Instruction::Or,old,v,d.w);break; case AtomicRMWInst::Xor:nv=binop(Instruction::Xor,old,v,d.w);break; default:engineError("atomicrmw"); } storeC(p,d.w/8,nv); *D=old; fr.pc++; break; }
    case Instruction::AtomicCmpXchg:{ u64 p=cptr(*op(fr,d.o[0])); u32 w=d.ow[1]; Val old=loadC(p,w/8); Val ex=*op(fr,d.o[1]),nw=*op(fr,d.o[2]); Val eq=icmp(CmpInst::ICMP_EQ,old,ex,w); storeC(p,w/8,selV(eq,nw,old,w)); D[0]=old; D[1]=eq; fr.pc++; break; }
    case Instruction::FAdd:case Instruction::FSub:case Instruction::FMul:case Instruction::FDiv:{ const Val*a=op(fr,d.o[0]),*b=op(fr,d.o[1]); for(u32 i=0;i<d.n;i++){ if(d.w==64){ double x=cD(a[i]),y=cD(b[i]); D[i]=dV(d.op==Instruction::FAdd?x+y:d.op==Instruction::FSub?x-y:d.op==Instruction::FMul?x*y:x/y);} else { float x=cF(a[i]),y=cF(b[i]); D[i]=fV(d.op==Instruction::FAdd?x+y:d.op==Instruction::FSub?x-y:d.op==Instruction::FMul?x*y:x/y);} } fr.pc++; break; }
    case Instruction::FNeg:{ const Val*a=op(fr,d.o[0]); for(u32 i=0;i<d.n;i++) D[i]=d.w==64?dV(-cD(a[i])):fV(-cF(a[i])); fr.pc++; break; }
    case Instruction::UIToFP: case Instruction::SIToFP:{ const Val*a=op(fr,d.o[0]); for(u32 i=0;i<d.n;i++){ if(a[i].e) engineError("symbolic int to fp"); double x=d.op==Instruction::UIToFP?(double)a[i].c:(double)sx(a[i].c,d.ow[0]); D[i]=d.w==64?dV(x):fV((float)x);} fr.pc++; break; }
    case Instruction::FPToUI: case Instruction::FPToSI:{ const Val*a=op(fr,d.o[0]); for(u32 i=0;i<d.n;i++){ double x=d.ow[0]==64?cD(a[i]):cF(a[i]); D[i]=VC(maskw(d.op==Instruction::FPToUI?(u64)x:(u64)(int64_t)x,d.w)); } fr.pc++; break; }
    case Instruction::FPExt:{ *D=dV(cF(*op(fr,d.o[0]))); fr.pc++; break; } case Instruction::FPTrunc:{ *D=fV((float)cD(*op(fr,d.o[0]))); fr.pc++; break; }
    case Instruction::FCmp:{ const Val*a=op(fr,d.o[0]),*b=op(fr,d.o[1]); double x=d.ow[0]==64?cD(*a):cF(*a),y=d.ow[0]==64?cD(*b):cF(*b); bool r=false,un=x!=x||y!=y; switch(d.sub){ case CmpInst::FCMP_OEQ:r=x==y;break;case CmpInst::FCMP_OGT:r=x>y;break;case CmpInst::FCMP_OGE:r=x>=y;break;case CmpInst::FCMP_OLT:r=x<y;break;case CmpInst::FCMP_OLE:r=x<=y;break;case CmpInst::FCMP_ONE:r=!un&&x!=y;break;case CmpInst::FCMP_UEQ:r=un||x==y;break;case CmpInst::FCMP_UNE:r=un||x!=y;break;case CmpInst::FCMP_UGT:r=un||x>y;break;case CmpInst::FCMP_ULT:r=un||x<y;break;case CmpInst::FCMP_UGE:r=un||x>=y;break;case CmpInst::FCMP_ULE:r=un||x<=y;break;case CmpInst::FCMP_UNO:r=un;break;case CmpInst::FCMP_ORD:r=!un;break;default:break;} *D=VC(r); fr.pc++; break; }
    default:{ std::string s; raw_string_ostream o(s); o<<*d.I; engineError("unsupported instruction "+o.str()); }
    }
  }
}
// nested synchronous call (used for destructors and constructors)
static void callSync(Fn*f,const std::vector<Val>&args){ size_t b=st.size(); pushFrame(f,args,-1,0,nullptr); run(b); }

int main(int argc,char**argv){
  std::string bc,entry; std::string shf;
  for(int i=1;i<argc;i++){ std::string a=argv[i]; auto nx=[&]{return std::string(argv[++i]);}; if(a=="--out") optOut=nx(); else if(a=="--time") optTime=atof(nx().c_str()); else if(a=="--assert-time") optAssertT=atof(nx().c_str()); else if(a=="--procs") optProcs=atol(nx().c_str()); else if(a=="--seed") optSeed=atoll(nx().c_str()); else if(a=="--entry") entry=nx(); else if(a=="-v") optVerbose=true; else if(a=="--shared") shf=nx(); else if(a=="--concrete") optConcrete=nx(); else if(a=="--assert-rl") optAssertRl=atol(nx().c_str()); else bc=a; }
  rlimit rl; getrlimit(RLIMIT_STACK,&rl); if(rl.rlim_cur!=RLIM_INFINITY&&!getenv("SYMX_STK")){ rl.rlim_cur=rl.rlim_max; if(rl.rlim_max==RLIM_INFINITY) rl.rlim_cur=4ull<<30; setrlimit(RLIMIT_STACK,&rl); setenv("SYMX_STK","1",1); execv("/proc/self/exe",argv); }
  mkdir(optOut.c_str(),0755);
  SH=(Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  
  if(!shf.empty()){ int fd=open(shf.c_str(),O_RDWR|O_CREAT,0600); ftruncate(fd,sizeof(Tokens)); TOK=(Tokens*)mmap(0,sizeof(Tokens),PROT_READ|PROT_WRITE,MAP_SHARED,fd,0); } else TOK=(Tokens*)mmap(0,sizeof(Tokens),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  TOK->maxActive=optProcs; __sync_fetch_and_add(&TOK->active,1); t_start=now(); rngS^=optSeed*0x9E3779B97F4A7C15ull; for(int i=0;i<10;i++) rnd();
  CTX=new LLVMContext; SMDiagnostic err; auto mod=parseIRFile(bc,err,*CTX); if(!mod){ err.print("symx",errs()); return 3; } M=mod.release(); DL=&M->getDataLayout();
  regStack=(Val*)mmap(0,sizeof(Val)*REGCAP,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  loadConcrete();
  pid_t main=fork(); if(main==0){ setpgid(0,0);
    for(int i=0;i<6;i++) models.push_back(newModel());
    // global constructors
    if(auto*gc=M->getGlobalVariable("llvm.global_ctors")) if(auto*ca=dyn_cast<ConstantArray>(gc->getInitializer())){ std::vector<std::pair<u64,Function*>> v; for(auto&o:ca->operands()){ auto*cs=cast<ConstantStruct>(o); if(auto*F=dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(),F}); } std::stable_sort(v.begin(),v.end(),[](auto&a,auto&b){return a.first<b.first;}); for(auto&p:v) callSync(getFn(p.second),{}); }
    Function*F=M->getFunction(entry); if(!F||F->isDeclaration()){ engineError("no entry "+entry); }
    callSync(getFn(F),{});
    INC(reach[0]);
    // functions executed on this (first) path family
    finishProcess(0);
  }
  // watchdog: the root process waits, and kills the whole group on overrun
  int s; double dl=t_start+optTime+60; bool killed=false; while(waitpid(main,&s,WNOHANG)==0){ usleep(20000); if(now()>dl){ killed=true; INC(timeouts); kill(-main,SIGKILL); waitpid(main,&s,0); break; } }
  if(WIFSIGNALED(s)&&!killed){ INC(errors); fprintf(stderr,"root path process died: signal %d\n",WTERMSIG(s)); }
  std::string rs; for(int i=1;i<256;i++) if(SH->reach[i]) rs+=(rs.empty()?"":",")+std::string("\"")+std::to_string(i)+"\":"+std::to_string(SH->reach[i]);
  printf("{\"paths\":%ld,\"completed\":%ld,\"forks\":%ld,\"insts\":%ld,\"asserts\":%ld,\"asserts_rewritten\":%ld,\"asserts_smt\":%ld,\"queries\":%ld,\"sat\":%ld,\"unsat\":%ld,\"unknown\":%ld,\"portfolio\":%ld,\"solver_s\":%.3f,\"violations\":%ld,\"errors\":%ld,\"inconclusive\":%ld,\"timeouts\":%ld,\"assumes_false\":%ld,\"model_hits\":%ld,\"max_nodes\":%ld,\"reach\":{%s},\"wall_s\":%.2f}\n",SH->paths,SH->reach[0],SH->forks,SH->insts,SH->asserts,SH->assertsTriv,SH->assertsSmt,SH->queries,SH->querySat,SH->queryUnsat,SH->queryUnk,SH->portf,SH->solverUs/1e6,SH->violations,SH->errors,SH->inconcl,SH->timeouts,SH->assumesFalse,SH->cacheHits,SH->maxNodes,rs.c_str(),now()-t_start);
  return 0;
}
