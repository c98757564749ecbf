#include "expr.h"
#include "ufsem.h"
#include <sstream>
using namespace llvm;
std::vector<VarInfo> g_vars; std::vector<UFInfo> g_ufs; std::vector<Table> g_tabs; std::vector<E> g_byid;
u64 g_nodeLimit=60000000;
u32 nodeCount(){return g_byid.size();}

// ---------------------------------------------------------------- arena + hash consing
static char* arenaP=nullptr; static size_t arenaLeft=0;
static void* arenaAlloc(size_t n){ n=(n+7)&~7ull; if(n>arenaLeft){ size_t c=std::max<size_t>(n,1<<22); arenaP=(char*)malloc(c); arenaLeft=c; } void*p=arenaP; arenaP+=n; arenaLeft-=n; return p; }
static std::vector<E> htab(1<<16,nullptr); static size_t hcount=0;
static inline u32 hmix(u32 h,u64 v){ u64 x=(h^v)*0x9E3779B97F4A7C15ull; return (u32)(x^(x>>29)^(x>>47)); }
static void rehash(){ std::vector<E> n(htab.size()*2,nullptr); for(E e:htab) if(e){ size_t i=e->hash&(n.size()-1); while(n[i]) i=(i+1)&(n.size()-1); n[i]=e; } htab.swap(n); }
static E intern(K k,u32 w,u64 aux,u32 n,E const* kids,const u64* words=nullptr,u32 nw=0){
  u32 h=hmix(hmix(k*131+7,w),aux);
  if(words) for(u32 i=0;i<nw;i++) h=hmix(h,words[i]); else for(u32 i=0;i<n;i++) h=hmix(h,kids[i]->id+1);
  size_t m=htab.size()-1,i=h&m;
  while(E e=htab[i]){
    if(e->hash==h&&e->k==k&&e->w==w&&e->aux==aux){
      if(words){ if(e->n==nw&&!memcmp(e->kid,words,8*nw)) return e; }
      else if(e->n==n&&!memcmp(e->kid,kids,8*n)) return e;
    }
    i=(i+1)&m;
  }
  u32 cnt=words?nw:n;
  E e=(E)arenaAlloc(sizeof(Expr)+8*cnt);
  e->k=k;e->flag=0;e->w=w;e->n=cnt;e->id=g_byid.size();e->hash=h;e->aux=aux;
  if(words) memcpy((void*)e->kid,words,8*nw); else memcpy((void*)e->kid,kids,8*n);
  g_byid.push_back(e); htab[i]=e; if(++hcount*2>htab.size()) rehash();
  return e;
}
E mkNode(K k,u32 w,u64 aux,const EV& kids){ return intern(k,w,aux,kids.size(),kids.data()); }
E mkC(u32 w,u64 v){ if(w<64) v&=(1ull<<w)-1; if(w<=64) return intern(CONST,w,v,0,nullptr); return mkCA(APInt(w,v)); }
E mkCA(const APInt&a){ u32 w=a.getBitWidth(); if(w<=64) return mkC(w,a.getZExtValue()); return intern(CONST,w,0,0,nullptr,a.getRawData(),a.getNumWords()); }
APInt cval(E e){ if(e->w<=64) return APInt(e->w,e->aux); return APInt(e->w,ArrayRef<u64>((u64*)e->kid,e->n)); }
u64 cu64(E e){ if(e->w<=64) return e->aux; return ((u64*)e->kid)[0]; }
bool isZero(E e){ if(e->k!=CONST) return false; if(e->w<=64) return e->aux==0; for(u32 i=0;i<e->n;i++) if(((u64*)e->kid)[i]) return false; return true; }
bool isOnes(E e){ if(e->k!=CONST) return false; if(e->w<=64) return e->aux==(e->w==64?~0ull:(1ull<<e->w)-1); return cval(e).isAllOnes(); }
E tTrue(){return mkC(1,1);} E tFalse(){return mkC(1,0);}
E mkVar(u32 w,const std::string&name){ u32 id=g_vars.size(); g_vars.push_back({name,w}); return intern(VAR,w,id,0,nullptr); }
u32 ufId(const std::string&name,int prp){ for(u32 i=0;i<g_ufs.size();i++) if(g_ufs[i].key==name&&g_ufs[i].prp==prp) return i; g_ufs.push_back({name,prp,0,name}); return g_ufs.size()-1; }

// ---------------------------------------------------------------- tables
struct TabKey{ size_t operator()(const std::pair<u32,std::string>&p)const{return std::hash<std::string>()(p.second)*31+p.first;} };
static std::unordered_map<std::string,u32> tabIntern;
u32 internTable(Table&&t){
  std::string key((char*)&t.iw,4); key.append((char*)&t.w,4); for(auto&a:t.v) key.append((char*)a.getRawData(),8*a.getNumWords());
  auto it=tabIntern.find(key); if(it!=tabIntern.end()) return it->second;
  g_tabs.push_back(std::move(t)); u32 id=g_tabs.size()-1; tabIntern[key]=id; return id;
}
// find if e is a function of a single small atom through xor-const: returns idx' and composes
extern int g_lin; static bool linTab(u32 t);
E mkTbl(u32 tab,E idx){
  if(isC(idx)) return mkCA(g_tabs[tab].v[cu64(idx)]);
  u32 iw=g_tabs[tab].iw,w=g_tabs[tab].w;
  assert(idx->w==iw);
  // compose: idx = TBL(T2,i) or XOR(c,TBL) or XOR(c,x)
  E c=nullptr,base=idx;
  if(idx->k==XOR&&idx->n==2&&isC(idx->kid[0])){ c=idx->kid[0]; base=idx->kid[1]; }
  else if(idx->k==XOR&&idx->n==2&&isC(idx->kid[1])){ c=idx->kid[1]; base=idx->kid[0]; }
  if(base->k==TBL){ Table t; t.iw=g_tabs[base->aux].iw; t.w=w; u64 cv=c?cu64(c):0; for(size_t i=0;i<g_tabs[base->aux].v.size();i++) t.v.push_back(g_tabs[tab].v[g_tabs[base->aux].v[i].getZExtValue()^cv]); return mkTbl(internTable(std::move(t)),base->kid[0]); }
  if(c){ Table t; t.iw=iw;t.w=w; u64 cv=cu64(c); for(size_t i=0;i<g_tabs[tab].v.size();i++) t.v.push_back(g_tabs[tab].v[i^cv]); return mkTbl(internTable(std::move(t)),base); }
  if(g_lin&&idx->k==XOR&&linTab(tab)){ EV v; for(u32 i=0;i<idx->n;i++) v.push_back(mkTbl(tab,idx->kid[i])); return mkXor(v); }
  Table&T=g_tabs[tab];
  bool same=true; for(auto&a:T.v) if(a!=T.v[0]){same=false;break;} if(same) return mkCA(T.v[0]);
  if(iw==w){ bool idn=true; for(size_t i=0;i<T.v.size();i++) if(T.v[i]!=i){idn=false;break;} if(idn) return idx; }
  // normalise T[0]=0
  if(!T.v[0].isZero()){ APInt c0=T.v[0]; Table t; t.iw=iw;t.w=w; for(auto&a:T.v) t.v.push_back(a^c0); u32 id=internTable(std::move(t)); return mkXor(mkCA(c0),mkTbl(id,idx)); }
  return intern(TBL,w,tab,1,&idx);
}
// ---------------------------------------------------------------- extract / concat
static std::unordered_map<u64,E> exMemo; // key (id,lo,w) packed when possible
int g_anf=0; // goals are decided by their algebraic normal form first
int g_lin=0; // tables that are linear over xor are applied term by term
static bool linTab(u32 t){ static std::unordered_map<u32,bool> M; auto it=M.find(t); if(it!=M.end()) return it->second; auto&T=g_tabs[t]; bool ok=T.v[0].isZero(); for(size_t i=1;ok&&i<T.v.size();i++){ size_t lo=i&(~i+1); if(lo!=i) ok=T.v[i]==(T.v[lo]^T.v[i^lo]); } return M[t]=ok; }
int g_coarse=0; // 1: keep words whole (rotations, sums and xors are not split at bit positions); 2: as 1, but truncations enter sums; 3: as 1, rotations enter xors
void exMemoClear(){ exMemo.clear(); }
static const u32 FLAT=4096;
static inline bool cat(E e){ return e->k==CONCAT||e->k==CONST||e->k==VAR||e->k==UF||(e->k==EXTRACT&&(e->kid[0]->k==VAR||e->kid[0]->k==UF)); }
static inline bool cheap(E e){ switch(e->k){case CONST:case CONCAT:case VAR:case EXTRACT:case UF:case TBL:case ITE: return true; default:return false;} }
E mkExtract(E e,u32 lo,u32 w){
  assert(lo+w<=e->w&&w>0);
  if(w==e->w) return e;
  if(e->k==CONST){ if(e->w<=64) return mkC(w,e->aux>>lo); return mkCA(cval(e).extractBits(w,lo)); }
  if(e->k==EXTRACT) return mkExtract(e->kid[0],lo+e->aux,w);
  if(e->k==VAR||e->k==UF||e->k==CLMUL) return intern(EXTRACT,w,lo,1,&e);
  bool pk=lo<(1u<<16)&&w<(1u<<16); u64 key=((u64)e->id<<32)|((u64)lo<<16)|w;
  if(pk){ auto it=exMemo.find(key); if(it!=exMemo.end()) return it->second; }
  E r=nullptr;
  switch(e->k){
  case CONCAT:{ EV out; u32 pos=0; for(u32 i=0;i<e->n;i++){ E c=e->kid[i]; u32 a=std::max(pos,lo),b=std::min(pos+c->w,lo+w); if(a<b) out.push_back(mkExtract(c,a-pos,b-a)); pos+=c->w; if(pos>=lo+w) break; } r=mkConcat(out); break; }
  case ROTL:{ if(g_coarse) break; u32 W=e->w; u32 s=(lo+W-(u32)e->aux)%W; E x=e->kid[0]; if(s+w<=W) r=mkExtract(x,s,w); else r=mkConcat(EV{mkExtract(x,s,W-s),mkExtract(x,0,w-(W-s))}); break; }
  case XOR: case AND: case OR:{ bool ok=false; if(g_coarse){ ok=true; for(u32 i=0;i<e->n;i++) if(!cat(e->kid[i])) ok=false; } else for(u32 i=0;i<e->n;i++) if(cheap(e->kid[i])){ok=true;break;} if(ok){ EV v; for(u32 i=0;i<e->n;i++) v.push_back(mkExtract(e->kid[i],lo,w)); r=e->k==XOR?mkXor(v):e->k==AND?mkAnd(v):mkOr(v);} break; }
  case ADD: if(g_coarse&1) break; if(lo==0){ EV v; for(u32 i=0;i<e->n;i++) v.push_back(mkExtract(e->kid[i],0,w)); r=mkAdd(v);} else { u32 tz=64000; bool allz=true; for(u32 i=0;i<e->n;i++){ u32 t=trailZeros(e->kid[i]); tz=std::min(tz,t);} (void)allz; if(tz>0&&lo<=tz){ EV v; for(u32 i=0;i<e->n;i++) v.push_back(mkExtract(e->kid[i],lo,w)); r=mkAdd(v);} else if(tz>lo+w-1) r=mkC(w,0); } break;
  case MUL: if(lo==0) r=mkMul(mkExtract(e->kid[0],0,w),mkExtract(e->kid[1],0,w)); break;
  case ITE: r=mkIte(e->kid[0],mkExtract(e->kid[1],lo,w),mkExtract(e->kid[2],lo,w)); break;
  case SEXT:{ E x=e->kid[0]; if(lo+w<=x->w) r=mkExtract(x,lo,w); else if(lo<x->w) r=mkSext(mkExtract(x,lo,x->w-lo),w); else r=mkSext(mkExtract(x,x->w-1,1),w); break; }
  case TBL:{ Table t; t.iw=g_tabs[e->aux].iw; t.w=w; for(size_t i=0;i<g_tabs[e->aux].v.size();i++) t.v.push_back(g_tabs[e->aux].v[i].extractBits(w,lo)); r=mkTbl(internTable(std::move(t)),e->kid[0]); break; }
  case SHL: if(lo==0&&w>=8&&isZero(mkLshrC(e->kid[1],6))&&0) {} break;
  default: break;
  }
  if(!r) r=intern(EXTRACT,w,lo,1,&e);
  if(pk) exMemo[key]=r;
  return r;
}
static inline void exParts(E e,E&b,u32&lo){ if(e->k==EXTRACT){b=e->kid[0];lo=e->aux;} else {b=e;lo=0;} }
// try merging a (low) and b (high); returns null if impossible
static E tryMerge(E a,E b){
  if(isC(a)&&isC(b)){ APInt x=cval(b).zext(a->w+b->w); x<<=a->w; x|=cval(a).zext(a->w+b->w); return mkCA(x); }
  if(a->k==EXTRACT||b->k==EXTRACT){ E p,q; u32 l1,l2; exParts(a,p,l1); exParts(b,q,l2); if(p==q&&l1+a->w==l2){ return mkExtract(p,l1,a->w+b->w);} }
  if(a->k==XOR&&b->k==XOR&&a->n==b->n&&a->n<=12){
    EV kb(b->kid,b->kid+b->n),m; bool ok=true;
    for(u32 i=0;i<a->n&&ok;i++){ E x=a->kid[i]; bool f=false; for(size_t j=0;j<kb.size();j++){ E y=kb[j]; if(isC(x)!=isC(y)) continue; if(!isC(x)){ if(x->k!=EXTRACT&&y->k!=EXTRACT) continue; E p,q;u32 l1,l2; exParts(x,p,l1); exParts(y,q,l2); if(p!=q||l1+x->w!=l2) continue; } E mm=tryMerge(x,y); if(!mm||mm->k==CONCAT) continue; m.push_back(mm); kb.erase(kb.begin()+j); f=true; break; } if(!f) ok=false; }
    if(ok) return mkXor(m);
  }
  if(a->k==ITE&&b->k==ITE&&a->kid[0]==b->kid[0]){ E t=tryMerge(a->kid[1],b->kid[1]); if(!t) return nullptr; E f=tryMerge(a->kid[2],b->kid[2]); if(!f) return nullptr; return mkIte(a->kid[0],t,f); }
  return nullptr;
}
E mkConcat(const EV& in){
  EV v;
  auto push=[&](E x){ while(!v.empty()){ E m=tryMerge(v.back(),x); if(!m) break; v.pop_back(); x=m; if(x->k==CONCAT) break; } v.push_back(x); };
  for(E e:in){ if(e->k==CONCAT) for(u32 i=0;i<e->n;i++) push(e->kid[i]); else push(e); }
  bool again=false; for(E e:v) if(e->k==CONCAT) again=true;
  if(again){ EV o; for(E e:v){ if(e->k==CONCAT) for(u32 i=0;i<e->n;i++) o.push_back(e->kid[i]); else o.push_back(e);} v.swap(o); }
  if(v.size()==1) return v[0];
  if(v.size()==2&&v[0]->k==EXTRACT&&v[1]->k==EXTRACT&&v[0]->kid[0]==v[1]->kid[0]){ E b=v[0]->kid[0]; if(v[1]->aux==0&&v[0]->aux+v[0]->w==b->w&&v[1]->w==v[0]->aux&&(g_coarse||v[0]->aux%8!=0)){ u64 c=b->w-v[0]->aux; if(g_coarse) return mkRotl(b,c); return intern(ROTL,b->w,c,1,&b);} }
  u32 w=0; for(E e:v) w+=e->w;
  if(g_coarse==3&&v.size()>=2){ EV o; u32 pos=0; bool ch=false; for(size_t i=0;i<v.size();i++){ E r=nullptr; size_t used=0; if(v[i]->k==XOR&&v[i]->n<=6&&v[i]->kid[0]->k==EXTRACT){ u32 W=v[i]->kid[0]->kid[0]->w; if((W==32||W==64)&&v[i]->w<W&&pos%W==0){ std::map<E,EV> g; u32 t=0; size_t j=i; bool ok=true; for(;j<v.size()&&t<W&&ok;j++){ E p=v[j]; if(p->k!=XOR||p->n!=v[i]->n){ ok=false; break; } for(u32 q=0;q<p->n;q++){ E x=p->kid[q]; if(x->k!=EXTRACT||x->kid[0]->w!=W||g[x->kid[0]].size()!=j-i){ ok=false; break; } g[x->kid[0]].push_back(x); } t+=p->w; }
      if(ok&&t==W){ EV xs; for(auto&kv:g){ if(kv.second.size()!=j-i){ ok=false; break; } E c=mkConcat(kv.second); if(c->k==CONCAT){ ok=false; break; } xs.push_back(c); } if(ok&&xs.size()==v[i]->n){ r=mkXor(xs); used=j-i; } } } }
      if(r){ o.push_back(r); pos+=r->w; i+=used-1; ch=true; } else { o.push_back(v[i]); pos+=v[i]->w; } } if(ch){ v.swap(o); if(v.size()==1) return v[0]; } }
  if(g_coarse&&v.size()>2){ EV o; u32 pos=0; bool ch=false; for(size_t i=0;i<v.size();i++){ if(i+1<v.size()&&v[i]->k==EXTRACT&&v[i+1]->k==EXTRACT&&v[i]->kid[0]==v[i+1]->kid[0]&&v[i+1]->aux+v[i+1]->w==v[i]->aux){ E b=v[i]->kid[0]; u32 W=v[i]->w+v[i+1]->w; if((W==32||W==64)&&pos%W==0&&(b->w==W||(b->w>W&&v[i+1]->aux%W==0))){ E x=mkExtract(b,v[i+1]->aux,W); if(x->k!=CONCAT){ o.push_back(mkRotl(x,v[i]->w)); pos+=W; i++; ch=true; continue; } } } o.push_back(v[i]); pos+=v[i]->w; } if(ch){ v.swap(o); if(v.size()==1) return v[0]; } }
  if(g_coarse&&v.size()==2&&(w==32||w==64)&&v[0]->k==EXTRACT&&v[1]->k==EXTRACT&&v[0]->kid[0]==v[1]->kid[0]&&v[1]->aux+v[1]->w==v[0]->aux){ E b=mkExtract(v[0]->kid[0],v[1]->aux,w); if(b->k!=CONCAT) return mkRotl(b,v[0]->w); }
  return intern(CONCAT,w,0,v.size(),v.data());
}
E mkRotl(E a,u64 c){ c%=a->w; if(c==0) return a; if(a->k==ROTL) return mkRotl(a->kid[0],c+a->aux); if(isC(a)) return mkCA(cval(a).rotl((unsigned)c)); 
  if(g_coarse==3&&a->k==XOR){ EV v; for(u32 i=0;i<a->n;i++) v.push_back(mkRotl(a->kid[i],c)); return mkXor(v); }
  if(g_coarse?a->k!=CONCAT:(c%8!=0&&a->k!=VAR&&a->k!=EXTRACT)) return intern(ROTL,a->w,c,1,&a);
  return mkConcat(EV{mkExtract(a,a->w-c,c),mkExtract(a,0,a->w-c)}); }
E mkShlC(E a,u64 c){ if(c==0) return a; if(c>=a->w) return mkC(a->w,0); return mkConcat(EV{mkC(c,0),mkExtract(a,0,a->w-c)}); }
E mkLshrC(E a,u64 c){ if(c==0) return a; if(c>=a->w) return mkC(a->w,0); return mkConcat(EV{mkExtract(a,c,a->w-c),mkC(c,0)}); }
E mkAshrC(E a,u64 c){ if(c==0) return a; if(c>=a->w) c=a->w-1; return mkSext(mkExtract(a,c,a->w-c),a->w); }
E mkZext(E a,u32 w){ if(w==a->w) return a; return mkConcat(EV{a,mkC(w-a->w,0)}); }
E mkSext(E a,u32 w){ if(w==a->w) return a; if(isC(a)) return mkCA(cval(a).sext(w)); if(a->w==1){ return mkIte(a,mkCA(APInt::getAllOnes(w)),mkC(w,0)); }
  if(a->k==SEXT) return mkSext(a->kid[0],w);
  if(a->k==CONCAT&&isC(a->kid[a->n-1])){ E t=a->kid[a->n-1]; bool neg=cval(t).isNegative(); return mkConcat(EV{a,neg?mkCA(APInt::getAllOnes(w-a->w)):mkC(w-a->w,0)}); }
  if(a->k==ITE&&(isC(a->kid[1])||isC(a->kid[2]))) return mkIte(a->kid[0],mkSext(a->kid[1],w),mkSext(a->kid[2],w));
  return intern(SEXT,w,0,1,&a); }
// ---------------------------------------------------------------- known bits
static std::unordered_map<u32,APInt> kzMemo;
APInt knownZero(E e){
  if(e->k==CONST) return ~cval(e);
  if(e->k!=CONCAT&&e->k!=AND&&e->k!=ITE&&e->k!=ADD&&e->k!=EXTRACT&&e->k!=OR&&e->k!=XOR&&e->k!=MUL&&e->k!=UREM&&e->k!=TBL&&e->k!=UDIV&&e->k!=LSHR) return APInt(e->w,0);
  auto it=kzMemo.find(e->id); if(it!=kzMemo.end()) return it->second;
  APInt r(e->w,0);
  switch(e->k){
  case CONCAT:{ u32 p=0; for(u32 i=0;i<e->n;i++){ r.insertBits(knownZero(e->kid[i]),p); p+=e->kid[i]->w; } break; }
  case AND: for(u32 i=0;i<e->n;i++) r|=knownZero(e->kid[i]); break;
  case OR: case XOR: r=APInt::getAllOnes(e->w); for(u32 i=0;i<e->n;i++) r&=knownZero(e->kid[i]); break;
  case ITE: r=knownZero(e->kid[1])&knownZero(e->kid[2]); break;
  case EXTRACT: if(e->kid[0]->k==ADD||e->kid[0]->k==MUL||e->kid[0]->k==UREM||e->kid[0]->k==UDIV) r=knownZero(e->kid[0]).extractBits(e->w,e->aux); break;
  case ADD:{ u32 lz=e->w,tz=e->w; APInt sum(e->w+8,0); bool ov=false; if(e->n>200) break; for(u32 i=0;i<e->n;i++){ APInt z=knownZero(e->kid[i]); tz=std::min(tz,z.countr_one()); sum+= (~z).zext(e->w+8);} (void)lz; if(sum.getActiveBits()>e->w) ov=true; if(!ov){ u32 hb=e->w-sum.getActiveBits(); if(hb) r.setHighBits(hb);} if(tz) r.setLowBits(std::min(tz,e->w)); break; }
  case MUL:{ APInt a=knownZero(e->kid[0]),b=knownZero(e->kid[1]); u32 ba=e->w-a.countl_one(),bb=e->w-b.countl_one(); APInt m=((~a).zext(2*e->w))*((~b).zext(2*e->w)); (void)ba;(void)bb; if(m.getActiveBits()<e->w) r.setHighBits(e->w-m.getActiveBits()); u32 tz=std::min<u32>(e->w,a.countr_one()+b.countr_one()); if(tz) r.setLowBits(tz); break; }
  case UREM: if(isC(e->kid[1])&&!isZero(e->kid[1])){ APInt m=cval(e->kid[1])-1; u32 ab=m.getActiveBits(); if(ab<e->w) r.setHighBits(e->w-ab);} break;
  case UDIV: { APInt z=knownZero(e->kid[0]); u32 l=z.countl_one(); if(l) r.setHighBits(l); break; }
  case LSHR: { APInt z=knownZero(e->kid[0]); u32 l=z.countl_one(); if(l) r.setHighBits(l); break; }
  case TBL:{ APInt o(e->w,0); for(auto&a:g_tabs[e->aux].v) o|=a; r=~o; break; }
  default:break; }
  kzMemo[e->id]=r; return r;
}
u32 trailZeros(E e){ if(e->k==CONST) return isZero(e)?e->w:cval(e).countr_zero(); if(e->k==CONCAT){ u32 t=0; for(u32 i=0;i<e->n;i++){ u32 x=trailZeros(e->kid[i]); t+=x; if(x<e->kid[i]->w) break;} return t;} if(e->k==VAR||e->k==EXTRACT||e->k==UF) return 0; return knownZero(e).countr_one(); }
u32 leadZeros(E e){ return knownZero(e).countl_one(); }
APInt umax(E e){ if(isC(e)) return cval(e); return ~knownZero(e); }
// ---------------------------------------------------------------- bitwise
static E segOp(K op,const EV& v,const std::vector<u32>&cuts){ // cuts sorted, includes 0 and w
  EV out; for(size_t i=0;i+1<cuts.size();i++){ EV p; for(E e:v) p.push_back(mkExtract(e,cuts[i],cuts[i+1]-cuts[i])); out.push_back(op==XOR?mkXor(p):op==AND?mkAnd(p):mkOr(p)); }
  return mkConcat(out);
}
static void addCuts(E e,std::vector<u32>&c){ u32 p=0; for(u32 i=0;i<e->n;i++){ c.push_back(p); p+=e->kid[i]->w; } c.push_back(p); }
static int constRuns(const APInt&a,std::vector<u32>&cuts,int maxr){ u32 w=a.getBitWidth(); int runs=1; bool cur=a[0]; std::vector<u32> cc; cc.push_back(0); for(u32 i=1;i<w;i++) if(a[i]!=cur){ cur=a[i]; runs++; cc.push_back(i); if(runs>maxr) return runs; } cc.push_back(w); cuts.insert(cuts.end(),cc.begin(),cc.end()); return runs; }
static void normCuts(std::vector<u32>&c){ std::sort(c.begin(),c.end()); c.erase(std::unique(c.begin(),c.end()),c.end()); }
static bool idLess(E a,E b){return a->id<b->id;}
E mkNot(E a){ return mkXor(a,mkCA(APInt::getAllOnes(a->w))); }
E mkXor(const EV& in){
  u32 w=in[0]->w;
  if(in.size()==2){ E a=in[0],b=in[1]; if(a==b) return mkC(w,0); if(isZero(a)) return b; if(isZero(b)) return a; if(isC(a)&&isC(b)){ if(w<=64) return mkC(w,a->aux^b->aux); } }
  EV v; APInt c(w,0); bool hasCat=false;
  for(E e:in){ if(e->k==XOR&&!(g_coarse&&e->n>FLAT)) for(u32 i=0;i<e->n;i++){ if(isC(e->kid[i])) c^=cval(e->kid[i]); else v.push_back(e->kid[i]); } else if(isC(e)) c^=cval(e); else v.push_back(e); }
  std::sort(v.begin(),v.end(),idLess);
  { EV o; for(size_t i=0;i<v.size();){ if(i+1<v.size()&&v[i]==v[i+1]) i+=2; else o.push_back(v[i++]); } v.swap(o); }
  // TBL merge
  { bool any=false; for(size_t i=0;i<v.size()&&!any;i++) if(v[i]->k==TBL) for(size_t j=i+1;j<v.size();j++) if(v[j]->k==TBL&&v[j]->kid[0]==v[i]->kid[0]){ Table t; auto&A=g_tabs[v[i]->aux]; t.iw=A.iw;t.w=w; for(size_t q=0;q<A.v.size();q++) t.v.push_back(A.v[q]^g_tabs[v[j]->aux].v[q]); E m=mkTbl(internTable(std::move(t)),v[i]->kid[0]); EV nv; for(size_t q=0;q<v.size();q++) if(q!=i&&q!=j) nv.push_back(v[q]); nv.push_back(m); nv.push_back(mkCA(c)); return mkXor(nv);} 
    // TBL(T,i) ^ i of same width
    for(size_t i=0;i<v.size();i++) if(v[i]->k==TBL&&g_tabs[v[i]->aux].iw==w) for(size_t j=0;j<v.size();j++) if(v[j]==v[i]->kid[0]){ Table t; auto&A=g_tabs[v[i]->aux]; t.iw=A.iw;t.w=w; for(size_t q=0;q<A.v.size();q++) t.v.push_back(A.v[q]^APInt(w,q)); E m=mkTbl(internTable(std::move(t)),v[i]->kid[0]); EV nv; for(size_t q=0;q<v.size();q++) if(q!=i&&q!=j) nv.push_back(v[q]); nv.push_back(m); nv.push_back(mkCA(c)); return mkXor(nv);} }
  for(E e:v) if(e->k==CONCAT) hasCat=true;
  if(v.empty()) return mkCA(c);
  if(v.size()==1&&c.isZero()) return v[0];
  if(hasCat&&g_coarse){ EV cc,oo; for(E e:v) (cat(e)?cc:oo).push_back(e);
    if(!oo.empty()){ if(cc.size()+(c.isZero()?0:1)>1){ if(!c.isZero()) cc.push_back(mkCA(c)); E m=mkXor(cc); oo.push_back(m); bool again=m->k==XOR; std::sort(oo.begin(),oo.end(),idLess); if(again) return intern(XOR,w,0,oo.size(),oo.data()); if(isZero(m)) { oo.erase(std::find(oo.begin(),oo.end(),m)); if(oo.size()==1) return oo[0]; } return intern(XOR,w,0,oo.size(),oo.data()); } return intern(XOR,w,0,v.size(),v.data()); } }
  if(hasCat){ std::vector<u32> cuts; for(E e:v) if(e->k==CONCAT) addCuts(e,cuts); normCuts(cuts); if(!c.isZero()) v.push_back(mkCA(c)); return segOp(XOR,v,cuts); }
  if(!c.isZero()){
    if(v.size()==1&&v[0]->k==ITE&&(isC(v[0]->kid[1])&&isC(v[0]->kid[2]))) return mkIte(v[0]->kid[0],mkXor(v[0]->kid[1],mkCA(c)),mkXor(v[0]->kid[2],mkCA(c)));
    v.insert(v.begin(),mkCA(c));
  }
  if(v.size()==1) return v[0];
  return intern(XOR,w,0,v.size(),v.data());
}
static bool isMaskIte(E e){ return e->k==ITE&&((isOnes(e->kid[1])&&isZero(e->kid[2]))||(isZero(e->kid[1])&&isOnes(e->kid[2]))); }
static bool isNotOf(E a,E b){ return (a->k==XOR&&a->n==2&&isOnes(a->kid[0])&&a->kid[1]==b)||(b->k==XOR&&b->n==2&&isOnes(b->kid[0])&&b->kid[1]==a); }
// coarse mode: bitwise functions of at most three words have one form, the exclusive or of their monomials
struct Anf { EV at; u32 m; }; // bit i of m: monomial of the atoms in i
static bool anfAtoms(E e,EV&at,int d){ if(isC(e)) return isZero(e)||isOnes(e); if(d<6&&(e->k==AND||e->k==OR||(e->k==XOR&&e->n<=(isOnes(e->kid[0])?4u:3u)))){ EV sv=at; bool ok=true; for(u32 i=0;i<e->n&&ok;i++) ok=anfAtoms(e->kid[i],at,d+1); if(ok) return true; at=sv; if(e->k!=XOR) {} }
  if(e->k==XOR&&isC(e->kid[0])){ if(!isOnes(e->kid[0])) return false; EV r(e->kid+1,e->kid+e->n); e=mkXor(r); }
  for(E a:at) if(a==e) return true; if(at.size()>=3) return false; at.push_back(e); return true; }
static u32 anfTT(E e,const EV&at){ static const u32 V[3]={0xAA,0xCC,0xF0}; if(isC(e)) return isZero(e)?0:0xFF; for(size_t i=0;i<at.size();i++) if(at[i]==e) return V[i]; 
  if(e->k==XOR&&isC(e->kid[0])){ EV r(e->kid+1,e->kid+e->n); E x=mkXor(r); for(size_t i=0;i<at.size();i++) if(at[i]==x) return V[i]^0xFF; }
  u32 r=e->k==AND?0xFF:0; for(u32 i=0;i<e->n;i++){ u32 t=anfTT(e->kid[i],at); r=e->k==AND?r&t:e->k==OR?r|t:r^t; } return r; }
static E anfBuild(u32 tt,const EV&at,u32 w){ u32 m=tt; for(int b=0;b<3;b++) for(u32 i=0;i<8;i++) if(i>>b&1) m^=((m>>(i^(1u<<b)))&1)<<i; EV x; bool one=m&1; for(u32 i=1;i<8;i++) if(m>>i&1){ EV k; bool bad=false; for(size_t j=0;j<3;j++) if(i>>j&1){ if(j>=at.size()) bad=true; else k.push_back(at[j]); } if(bad) continue; std::sort(k.begin(),k.end(),idLess); x.push_back(k.size()==1?k[0]:intern(AND,w,0,k.size(),k.data())); } if(one) x.push_back(mkCA(APInt::getAllOnes(w))); if(x.empty()) return mkC(w,0)->w==w?mkCA(APInt(w,0)):nullptr; return x.size()==1?x[0]:mkXor(x); }
static bool bitwise(E e){ return e->k==AND||e->k==OR||e->k==XOR; }
static E anfTry(K op,const EV&v,u32 w){ EV at; for(E e:v) if(!anfAtoms(e,at,0)) return nullptr; u32 t=op==AND?0xFF:0; for(E e:v){ u32 x=anfTT(e,at); t=op==AND?t&x:t|x; } return anfBuild(t,at,w); }
static E mkAndOr(K op,const EV& in){
  u32 w=in[0]->w;
  if(g_coarse&&w>=32){ bool cats=true; for(E e:in) if(!cat(e)) cats=false; if(!cats){ E r=anfTry(op,in,w); if(r) return r; } } bool isAnd=op==AND;
  APInt c=isAnd?APInt::getAllOnes(w):APInt(w,0); EV v; bool hasCat=false;
  for(E e:in){ if(e->k==op) for(u32 i=0;i<e->n;i++){ if(isC(e->kid[i])){ if(isAnd)c&=cval(e->kid[i]); else c|=cval(e->kid[i]);} else v.push_back(e->kid[i]); } else if(isC(e)){ if(isAnd)c&=cval(e); else c|=cval(e);} else v.push_back(e); }
  if(isAnd?c.isZero():c.isAllOnes()) return mkCA(c);
  std::sort(v.begin(),v.end(),idLess); v.erase(std::unique(v.begin(),v.end()),v.end());
  bool hasC=isAnd?!c.isAllOnes():!c.isZero();
  if(v.empty()) return mkCA(c);
  if(v.size()==1&&!hasC) return v[0];
  if(w==1||v.size()<=6){ for(size_t i=0;i<v.size();i++) if(v[i]->k==XOR) { E nb=mkNot(v[i]); for(size_t j=0;j<v.size();j++) if(v[j]==nb) return mkC(w,0)->w==w?(isAnd?mkC(w,0):mkCA(APInt::getAllOnes(w))):nullptr; } }
  for(E e:v) if(e->k==CONCAT) hasCat=true;
  bool allCat=true; if(g_coarse) for(E e:v) if(!cat(e)) allCat=false;
  if((hasCat||hasC)&&allCat){ std::vector<u32> cuts; bool doit=hasCat; for(E e:v) if(e->k==CONCAT) addCuts(e,cuts); if(hasC){ if(constRuns(c,cuts,hasCat?16:6)<=(hasCat?16:6)) doit=true; }
    if(doit){ normCuts(cuts); if(cuts.size()>2){ if(hasC) v.push_back(mkCA(c)); return segOp(op,v,cuts);} } }
  if(w>1) for(size_t i=0;i<v.size();i++) if(isMaskIte(v[i])){ E m=v[i]; EV r; for(size_t j=0;j<v.size();j++) if(j!=i) r.push_back(v[j]); if(hasC) r.push_back(mkCA(c)); E x=r.size()==1?r[0]:mkAndOr(op,r); E idn=isAnd?mkC(w,0):mkCA(APInt::getAllOnes(w)); bool pos=isOnes(m->kid[1]); if(isAnd) return pos?mkIte(m->kid[0],x,idn):mkIte(m->kid[0],idn,x); else return pos?mkIte(m->kid[0],idn,x):mkIte(m->kid[0],x,idn); }
  if(hasC) v.insert(v.begin(),mkCA(c));
  return intern(op,w,0,v.size(),v.data());
}
E mkAnd(const EV& in){ if(in.size()==2){ if(isOnes(in[0])) return in[1]; if(isOnes(in[1])) return in[0]; if(in[0]==in[1]) return in[0]; } return mkAndOr(AND,in); }
E mkOr(const EV& in){ if(in.size()==2){ if(isZero(in[0])) return in[1]; if(isZero(in[1])) return in[0]; if(in[0]==in[1]) return in[0]; } return mkAndOr(OR,in); }
// ---------------------------------------------------------------- arithmetic
E mkNeg(E a){ return mkMul(mkCA(APInt::getAllOnes(a->w)),a); }
static bool shlPattern(E e,E&x,u32&k){ if(e->k==CONCAT&&e->n==2&&isZero(e->kid[0])&&e->kid[1]->k==EXTRACT&&e->kid[1]->aux==0&&e->kid[1]->kid[0]->w==e->w){ x=e->kid[1]->kid[0]; k=e->kid[0]->w; return true;} return false; }
static void addTerm(std::map<u32,std::pair<E,APInt>>&m,APInt&c,E e,const APInt&coef){
  if(isC(e)){ c+=cval(e)*coef; return; }
  if(e->k==ADD){ for(u32 i=0;i<e->n;i++) addTerm(m,c,e->kid[i],coef); return; }
  if(e->k==MUL&&isC(e->kid[0])){ addTerm(m,c,e->kid[1],coef*cval(e->kid[0])); return; }
  E x;u32 k; if(shlPattern(e,x,k)&&x->k!=CONCAT){ addTerm(m,c,x,coef.shl(k)); return; }
  auto it=m.find(e->id); if(it==m.end()) m.emplace(e->id,std::make_pair(e,coef)); else it->second.second+=coef;
}
static E coefTerm(E x,const APInt&cf){ u32 w=x->w; if(cf.isOne()) return x; if(!g_coarse&&cf.isPowerOf2()) return mkShlC(x,cf.logBase2()); EV k{mkCA(cf),x}; return intern(MUL,w,0,2,k.data()); }
E mkAdd(const EV& in){
  u32 w=in[0]->w;
  if(in.size()==2&&isC(in[0])&&isC(in[1])&&w<=64) return mkC(w,in[0]->aux+in[1]->aux);
  if(in.size()==2){ if(isZero(in[0])) return in[1]; if(isZero(in[1])) return in[0]; }
  if(w==1) return mkXor(in);
  std::map<u32,std::pair<E,APInt>> m; APInt c(w,0); APInt one(w,1);
  for(E e:in) addTerm(m,c,e,one);
  if(g_coarse&&w>=32){ std::vector<E> bw; for(auto&kv:m) if(bitwise(kv.second.first)&&!kv.second.second.isZero()&&kv.second.first->n<=4) bw.push_back(kv.second.first); if(bw.size()>1&&bw.size()<400){ for(size_t i=0;i<bw.size();i++) if(bw[i]) for(size_t j=i+1;j<bw.size();j++) if(bw[j]){ auto a=m.find(bw[i]->id),b=m.find(bw[j]->id); if(a==m.end()||b==m.end()||a->second.second!=b->second.second) continue; E x=bw[i],y=bw[j]; if(x->k==XOR&&y->k==XOR){ bool sh=false; for(u32 p=0;p<x->n;p++) if(x->kid[p]->k==AND) sh=true; if(!sh) continue; } EV at; if(!anfAtoms(x,at,0)||!anfAtoms(y,at,0)) continue; u32 tx=anfTT(x,at),ty=anfTT(y,at); if(tx&ty) continue; E z=anfBuild(tx|ty,at,w); APInt cf=a->second.second; m.erase(a); m.erase(bw[j]->id); bw[j]=nullptr; addTerm(m,c,z,cf); break; } } }
  if(!g_coarse&&m.size()>=2){ // constant pieces of concatenations join the sum's constant
    std::vector<std::pair<E,APInt>> cs; for(auto&kv:m){ E e=kv.second.first; if(e->k!=CONCAT||kv.second.second.isZero()) continue; for(u32 i=0;i<e->n;i++) if(isC(e->kid[i])&&!isZero(e->kid[i])){ cs.push_back(kv.second); break; } }
    for(auto&q:cs){ E e=q.first; m.erase(e->id); APInt k(w,0); EV ks; u32 o=0; for(u32 i=0;i<e->n;i++){ E x=e->kid[i]; if(isC(x)){ k|=cval(x).zext(w).shl(o); x=mkCA(APInt(x->w,0)); } ks.push_back(x); o+=e->kid[i]->w; } c+=q.second*k; addTerm(m,c,mkConcat(ks),q.second); } }
  EV v; for(auto&kv:m) if(!kv.second.second.isZero()) v.push_back(coefTerm(kv.second.first,kv.second.second));
  if(v.empty()) return mkCA(c);
  if(!c.isZero()) v.push_back(mkCA(c));
  if(v.size()==1) return v[0];
  // constant whose low bits are clear under a concatenation: only the upper part changes
  if(v.size()==2&&isC(v[1])&&v[0]->k==CONCAT&&!g_coarse){ E x=v[0]; u32 lw=x->kid[0]->w; if(c.countr_zero()>=lw){ EV hi(x->kid+1,x->kid+x->n); return mkConcat({x->kid[0],mkAdd({mkConcat(hi),mkCA(c.extractBits(w-lw,lw))})}); } }
  if(v.size()<=16&&!(g_coarse&&v.size()>2)){ // disjoint => or
    APInt used(w,0); bool ok=true; bool anyCat=false; for(E e:v){ APInt nz=~knownZero(e); if((used&nz)!=0){ok=false;break;} used|=nz; if(e->k==CONCAT) anyCat=true; }
    if(ok&&anyCat) return mkOr(v);
  }
  if(v.size()==2&&!c.isZero()&&v[0]->k==ITE&&isC(v[0]->kid[1])&&isC(v[0]->kid[2])) return mkIte(v[0]->kid[0],mkAdd(v[0]->kid[1],v[1]),mkAdd(v[0]->kid[2],v[1]));
  std::sort(v.begin(),v.end(),idLess);
  return intern(ADD,w,0,v.size(),v.data());
}
E mkMul(E a,E b){
  u32 w=a->w; if(isC(b)) std::swap(a,b);
  if(isC(a)){
    if(isC(b)) return mkCA(cval(a)*cval(b));
    if(isZero(a)) return a; APInt c=cval(a); if(c.isOne()) return b;
    if(b->k==ADD){ EV v; for(u32 i=0;i<b->n;i++) v.push_back(mkMul(a,b->kid[i])); return mkAdd(v); }
    if(b->k==MUL&&isC(b->kid[0])) return mkMul(mkCA(c*cval(b->kid[0])),b->kid[1]);
    if(c.isPowerOf2()) return mkShlC(b,c.logBase2());
    E x;u32 k; if(shlPattern(b,x,k)&&x->k!=CONCAT) return mkMul(mkCA(c.shl(k)),x);
    if(b->k==ITE&&isC(b->kid[1])&&isC(b->kid[2])) return mkIte(b->kid[0],mkMul(a,b->kid[1]),mkMul(a,b->kid[2]));
    EV kk{a,b}; return intern(MUL,w,0,2,kk.data());
  }
  if(w==1) return mkAnd(a,b);
  // pull constant coefficients
  if(a->k==MUL&&isC(a->kid[0])) return mkMul(a->kid[0],mkMul(a->kid[1],b));
  if(b->k==MUL&&isC(b->kid[0])) return mkMul(b->kid[0],mkMul(a,b->kid[1]));
  if(b->id<a->id) std::swap(a,b);
  EV kk{a,b}; return intern(MUL,w,0,2,kk.data());
}
E mkDiv(K k,E a,E b){
  if(isC(a)&&isC(b)&&!isZero(b)){ APInt x=cval(a),y=cval(b); switch(k){case UDIV:return mkCA(x.udiv(y));case UREM:return mkCA(x.urem(y));case SDIV:return mkCA(x.sdiv(y));default:return mkCA(x.srem(y));} }
  if(isC(b)&&!isZero(b)){ APInt c=cval(b); if(k==UDIV&&c.isPowerOf2()) return mkLshrC(a,c.logBase2()); if(k==UREM&&c.isPowerOf2()){ u32 l=c.logBase2(); if(l==0) return mkC(a->w,0); return mkZext(mkExtract(a,0,l),a->w);} 
    if((k==UDIV||k==UREM)&&umax(a).ult(c)) return k==UDIV?mkC(a->w,0):a;
    if(k==SDIV||k==SREM){ if(leadZeros(a)>=1&&!c.isNegative()) return mkDiv(k==SDIV?UDIV:UREM,a,b); } 
    if(k==UDIV||k==UREM){ u32 lz=std::min(leadZeros(a),leadZeros(b)); if(lz>0&&lz<a->w){ u32 nw=a->w-lz; EV kk{mkExtract(a,0,nw),mkExtract(b,0,nw)}; return mkZext(intern(k,nw,0,2,kk.data()),a->w);} } }
  EV kk{a,b}; return intern(k,a->w,0,2,kk.data());
}
E mkShift(K k,E a,E b){
  if(isC(b)){ APInt c=cval(b); u64 s=c.getActiveBits()>32?a->w:c.getZExtValue(); return k==SHL?mkShlC(a,s):k==LSHR?mkLshrC(a,s):mkAshrC(a,s); }
  if(isZero(a)) return a;
  if(k==ASHR&&isOnes(a)) return a;
  EV kk{a,b}; return intern(k,a->w,0,2,kk.data());
}
static E clmulC(u32 w,const APInt&x,E y){ // multiply y by constant polynomial
  EV t{mkC(128,0)}; E yz=mkZext(y,128); for(u32 i=0;i<64;i++) if(x[i]) t.push_back(mkShlC(yz,i)); return mkXor(t); }
E mkClmul(E a,E b){ if(isC(a)&&isC(b)){ APInt r(128,0),y=cval(b).zext(128); APInt x=cval(a); for(u32 i=0;i<64;i++) if(x[i]) r^=y.shl(i); return mkCA(r);} if(isZero(a)||isZero(b)) return mkC(128,0);
  if(isC(a)&&cval(a).popcount()<=8) return clmulC(128,cval(a),b); if(isC(b)&&cval(b).popcount()<=8) return clmulC(128,cval(b),a);
  if(b->id<a->id) std::swap(a,b); EV kk{a,b}; return intern(CLMUL,128,0,2,kk.data()); }
// ---------------------------------------------------------------- ite / predicates
E mkIte(E c,E a,E b){
  if(isC(c)) return c->aux?a:b; if(a==b) return a;
  if(c->k==XOR&&c->n==2&&isOnes(c->kid[0])) return mkIte(c->kid[1],b,a);
  if(a->w==1){ if(isC(a)) return a->aux?mkOr(c,b):mkAnd(mkNot(c),b); if(isC(b)) return b->aux?mkOr(mkNot(c),a):mkAnd(c,a); if(a==c) return mkOr(c,b); if(b==c) return mkAnd(c,a); }
  if(a->k==ITE&&a->kid[0]==c) return mkIte(c,a->kid[1],b);
  if(b->k==ITE&&b->kid[0]==c) return mkIte(c,a,b->kid[2]);
  E k[3]={c,a,b}; return intern(ITE,a->w,0,3,k);
}
E mkEq(E a,E b){
  assert(a->w==b->w);
  if(a==b) return tTrue(); if(isC(a)&&isC(b)) return tFalse();
  if(isC(b)) std::swap(a,b); // const first
  u32 w=a->w;
  if(w==1){ if(isC(a)) return a->aux?b:mkNot(b); return mkNot(mkXor(a,b)); }
  if(isC(a)){
    APInt c=cval(a);
    if(b->k==CONCAT){ EV r; u32 p=0; for(u32 i=0;i<b->n;i++){ E x=b->kid[i]; E q=mkEq(mkExtract(a,p,x->w),x); p+=x->w; if(isC(q)){ if(!q->aux) return tFalse(); } else r.push_back(q);} if(r.empty()) return tTrue(); return mkAnd(r); }
    if(b->k==XOR){ EV r; APInt cc=c; for(u32 i=0;i<b->n;i++){ if(isC(b->kid[i])) cc^=cval(b->kid[i]); else r.push_back(b->kid[i]); } if(r.size()<b->n){ return mkEq(mkCA(cc),r.size()==1?r[0]:mkXor(r)); } if(c.isZero()&&b->n==2) return mkEq(b->kid[0],b->kid[1]); }
    if(b->k==ADD){ EV r; APInt cc=c; for(u32 i=0;i<b->n;i++){ if(isC(b->kid[i])) cc-=cval(b->kid[i]); else r.push_back(b->kid[i]); } if(r.size()<b->n) return mkEq(mkCA(cc),r.size()==1?r[0]:mkAdd(r)); 
      if(c.isZero()&&b->n==2&&w<=64){ // x - y == 0
        for(int i=0;i<2;i++){ E m=b->kid[i]; if(m->k==MUL&&isOnes(m->kid[0])) return mkEq(m->kid[1],b->kid[1-i]); } } }
    if(b->k==ITE){ E t=b->kid[1],f=b->kid[2]; if(isC(t)||isC(f)){ return mkIte(b->kid[0],mkEq(a,t),mkEq(a,f)); } }
    if(b->k==SEXT){ E x=b->kid[0]; APInt lo=c.trunc(x->w); if(lo.sext(w)==c) return mkEq(mkCA(lo),x); return tFalse(); }
    if(b->k==MUL&&isC(b->kid[0])&&cval(b->kid[0])[0]){ APInt m=cval(b->kid[0]); APInt inv=m; for(int i=0;i<8;i++) inv=inv*(APInt(w,2)-m*inv); return mkEq(mkCA(c*inv),b->kid[1]); }
    if(b->k==OR&&c.isZero()){ EV r; for(u32 i=0;i<b->n;i++) r.push_back(mkEq(a,b->kid[i])); return mkAnd(r); }
    if(b->k==ROTL) return mkEq(mkCA(c.rotr((unsigned)b->aux)),b->kid[0]);
    if((knownZero(b)&c)!=0) return tFalse();
    if(b->k==TBL){ Table t; t.iw=g_tabs[b->aux].iw;t.w=1; for(auto&x:g_tabs[b->aux].v) t.v.push_back(APInt(1,x==c)); return mkTbl(internTable(std::move(t)),b->kid[0]); }
  } else {
    if(a->k==CONCAT||b->k==CONCAT){ std::vector<u32> cuts; if(a->k==CONCAT) addCuts(a,cuts); if(b->k==CONCAT) addCuts(b,cuts); normCuts(cuts); if(cuts.size()<=130){ EV r; for(size_t i=0;i+1<cuts.size();i++){ E q=mkEq(mkExtract(a,cuts[i],cuts[i+1]-cuts[i]),mkExtract(b,cuts[i],cuts[i+1]-cuts[i])); if(isC(q)){ if(!q->aux) return tFalse(); } else r.push_back(q);} if(r.empty()) return tTrue(); return mkAnd(r); } }
    if(a->k==XOR||b->k==XOR){ E x=mkXor(a,b); if(isZero(x)) return tTrue(); if(isC(x)) return tFalse(); u32 n0=(a->k==XOR?a->n:1)+(b->k==XOR?b->n:1); u32 n1=x->k==XOR?x->n:1; if(n1<n0||x->k==CONCAT){ return mkEq(mkC(w,0),x); } }
    if(a->k==ADD||b->k==ADD){ E x=mkSub(a,b); if(isC(x)) return isZero(x)?tTrue():tFalse(); u32 n0=(a->k==ADD?a->n:1)+(b->k==ADD?b->n:1); u32 n1=x->k==ADD?x->n:1; if(n1<n0) return mkEq(mkC(w,0),x); }
    if(a->k==ROTL&&b->k==ROTL&&a->aux==b->aux) return mkEq(a->kid[0],b->kid[0]);
    if(a->k==SEXT&&b->k==SEXT&&a->kid[0]->w==b->kid[0]->w) return mkEq(a->kid[0],b->kid[0]);
    if(b->id<a->id) std::swap(a,b);
  }
  E k[2]={a,b}; return intern(EQ,1,0,2,k);
}
E mkUlt(E a,E b){
  u32 w=a->w; if(a==b) return tFalse();
  if(isC(a)&&isC(b)) return mkC(1,cval(a).ult(cval(b)));
  if(w==1) return mkAnd(mkNot(a),b);
  if(isZero(b)) return tFalse(); if(isOnes(a)) return tFalse();
  if(isC(b)&&cval(b).isOne()) return mkEq(a,mkC(w,0));
  if(isZero(a)) return mkNot(mkEq(b,mkC(w,0)));
  if(isC(b)){ if(umax(a).ult(cval(b))) return tTrue(); }
  if(isC(a)){ if(umax(b).ule(cval(a))) return tFalse(); }
  u32 lz=std::min(leadZeros(a),leadZeros(b)); if(lz>0&&lz<w) return mkUlt(mkExtract(a,0,w-lz),mkExtract(b,0,w-lz));
  if(a->k==ITE&&isC(b)&&isC(a->kid[1])&&isC(a->kid[2])) return mkIte(a->kid[0],mkUlt(a->kid[1],b),mkUlt(a->kid[2],b));
  if(b->k==ITE&&isC(a)&&isC(b->kid[1])&&isC(b->kid[2])) return mkIte(b->kid[0],mkUlt(a,b->kid[1]),mkUlt(a,b->kid[2]));
  E k[2]={a,b}; return intern(ULT,1,0,2,k);
}
E mkSlt(E a,E b){
  u32 w=a->w; if(a==b) return tFalse();
  if(isC(a)&&isC(b)) return mkC(1,cval(a).slt(cval(b)));
  if(isZero(b)) return mkExtract(a,w-1,1);
  if(isC(a)&&isOnes(a)) return mkNot(mkExtract(b,w-1,1)); // -1 < b
  if(leadZeros(a)>0&&leadZeros(b)>0) return mkUlt(a,b);
  if(a->k==SEXT||b->k==SEXT){ // narrow
    u32 na=a->k==SEXT?a->kid[0]->w:(isC(a)?cval(a).getSignificantBits():leadZeros(a)?w-leadZeros(a)+1:w), nb=b->k==SEXT?b->kid[0]->w:(isC(b)?cval(b).getSignificantBits():leadZeros(b)?w-leadZeros(b)+1:w); u32 nw=std::max(na,nb); if(nw<w) return mkSlt(mkExtract(a,0,nw),mkExtract(b,0,nw)); }
  E k[2]={a,b}; return intern(SLT,1,0,2,k);
}
E mkUF(u32 uf,u32 w,const EV& args){
  auto&U=g_ufs[uf];
  if(U.prp){ E key=args[0],x=args[1]; if(x->k==UF&&g_ufs[x->aux].prp==3-U.prp&&g_ufs[x->aux].name==U.name&&x->kid[0]==key) return x->kid[1]; }
  bool allc=true; for(E a:args) if(!isC(a)) allc=false; (void)allc; // keep symbolic even on constants: the function is arbitrary
  return intern(UF,w,uf,args.size(),args.data());
}
E mkPopcnt(E a){ EV v; for(u32 i=0;i<a->w;i++) v.push_back(mkZext(mkExtract(a,i,1),a->w)); return a->w==1?a:mkAdd(v); }
E mkCtz(E a){ E r=mkC(a->w,a->w); for(int i=a->w-1;i>=0;i--) r=mkIte(mkExtract(a,i,1),mkC(a->w,i),r); return r; }
E mkClz(E a){ E r=mkC(a->w,a->w); for(u32 i=0;i<a->w;i++) r=mkIte(mkExtract(a,i,1),mkC(a->w,a->w-1-i),r); return r; }
// ---------------------------------------------------------------- evaluation
APInt bytesToAP(const u8*p,size_t n){ std::vector<u64> ws((n+7)/8,0); memcpy(ws.data(),p,n); return APInt(n*8,ws); }
void apToBytes(const APInt&a,u8*p,size_t n){ for(size_t i=0;i<n;i++){ p[i]=0; u64 wd=i/8<a.getNumWords()?a.getRawData()[i/8]:0; p[i]=(u8)(wd>>(8*(i%8))); } }
std::string ufKey(u32 uf,const std::vector<APInt>& args){ auto&U=g_ufs[uf]; std::string k=U.name+char(U.prp); for(auto&a:args){ std::vector<u8> b((a.getBitWidth()+7)/8); apToBytes(a,b.data(),b.size()); k.append((char*)b.data(),b.size()); } return k; }
void ufPut(Asg&a,u32 uf,const std::vector<APInt>& args,const APInt&out){ a.uf.insert({ufKey(uf,args),out}); if(g_ufs[uf].prp) a.uf.insert({ufKey(ufId(std::string(g_ufs[uf].name),3-g_ufs[uf].prp),{args[0],out}),args[1]}); }
APInt ufEval(u32 uf,u32 w,const std::vector<APInt>& args){
  auto&U=g_ufs[uf]; size_t on=(w+7)/8; std::vector<u8> out(on);
  if(U.prp){ std::vector<u8> key((args[0].getBitWidth()+7)/8),in((args[1].getBitWidth()+7)/8); apToBytes(args[0],key.data(),key.size()); apToBytes(args[1],in.data(),in.size()); ufs_prp(U.prp-1,out.data(),in.data(),in.size(),key.data(),key.size(),U.name.c_str()); }
  else { std::vector<u8> in; for(auto&a:args){ size_t n=(a.getBitWidth()+7)/8; size_t o=in.size(); in.resize(o+n); apToBytes(a,in.data()+o,n);} ufs_fun(U.name.c_str(),out.data(),on,in.data(),in.size()); }
  return bytesToAP(out.data(),on).zextOrTrunc(w);
}
const APInt& Evaluator::ev(E e){
  if(e->id<have.size()&&have[e->id]) return memo[e->id];
  APInt r(1,0);
  switch(e->k){
  case CONST: r=cval(e); break;
  case VAR: if(e->aux<a->v.size()&&a->v[e->aux].getBitWidth()==e->w) r=a->v[e->aux]; else r=APInt(e->w,0); break;
  case CONCAT:{ r=APInt(e->w,0); u32 p=0; for(u32 i=0;i<e->n;i++){ r.insertBits(ev(e->kid[i]),p); p+=e->kid[i]->w; } break; }
  case EXTRACT: r=ev(e->kid[0]).extractBits(e->w,e->aux); break;
  case XOR: r=ev(e->kid[0]); for(u32 i=1;i<e->n;i++) r^=ev(e->kid[i]); break;
  case AND: r=ev(e->kid[0]); for(u32 i=1;i<e->n;i++) r&=ev(e->kid[i]); break;
  case OR: r=ev(e->kid[0]); for(u32 i=1;i<e->n;i++) r|=ev(e->kid[i]); break;
  case ADD: r=ev(e->kid[0]); for(u32 i=1;i<e->n;i++) r+=ev(e->kid[i]); break;
  case MUL: r=ev(e->kid[0]); r*=ev(e->kid[1]); break;
  case UDIV: case UREM: case SDIV: case SREM:{ APInt x=ev(e->kid[0]),y=ev(e->kid[1]); if(y.isZero()) r=(e->k==UDIV)?APInt::getAllOnes(e->w):(e->k==SDIV)?(x.isNegative()?APInt(e->w,1):APInt::getAllOnes(e->w)):x; else r=e->k==UDIV?x.udiv(y):e->k==UREM?x.urem(y):e->k==SDIV?x.sdiv(y):x.srem(y); break; }
  case SHL: case LSHR: case ASHR:{ APInt x=ev(e->kid[0]); APInt y=ev(e->kid[1]); u64 s=y.getActiveBits()>32?e->w:std::min<u64>(y.getZExtValue(),e->w); r=e->k==SHL?x.shl((unsigned)s):e->k==LSHR?x.lshr((unsigned)s):x.ashr((unsigned)s); break; }
  case ROTL: r=ev(e->kid[0]).rotl((unsigned)e->aux); break;
  case SEXT: r=ev(e->kid[0]).sext(e->w); break;
  case ITE: { bool c=!ev(e->kid[0]).isZero(); r=ev(c?e->kid[1]:e->kid[2]); break; }
  case EQ: { APInt x=ev(e->kid[0]); r=APInt(1,x==ev(e->kid[1])); break; }
  case ULT: { APInt x=ev(e->kid[0]); r=APInt(1,x.ult(ev(e->kid[1]))); break; }
  case SLT: { APInt x=ev(e->kid[0]); r=APInt(1,x.slt(ev(e->kid[1]))); break; }
  case UF:{ std::vector<APInt> as; for(u32 i=0;i<e->n;i++) as.push_back(ev(e->kid[i])); if(!a->uf.empty()){ auto it=a->uf.find(ufKey(e->aux,as)); if(it!=a->uf.end()&&it->second.getBitWidth()==e->w){ r=it->second; break; } } r=ufEval(e->aux,e->w,as); break; }
  case TBL: r=g_tabs[e->aux].v[ev(e->kid[0]).getZExtValue()]; break;
  case CLMUL:{ APInt x=ev(e->kid[0]),y=ev(e->kid[1]).zext(128); r=APInt(128,0); for(u32 i=0;i<64;i++) if(x[i]) r^=y.shl(i); break; }
  }
  if(e->id>=have.size()){ size_t n=std::max<size_t>(g_byid.size(),e->id+1); n+=n/4; have.resize(n,0); memo.resize(n,APInt(1,0)); }
  have[e->id]=1; memo[e->id]=std::move(r); return memo[e->id];
}
void collectVars(E e,std::set<u32>&out){ std::unordered_set<u32> seen; std::vector<E> st{e}; while(!st.empty()){ E x=st.back(); st.pop_back(); if(!seen.insert(x->id).second||x->k==CONST) continue; if(x->k==VAR){ out.insert(x->aux); continue;} for(u32 i=0;i<x->n;i++) st.push_back(x->kid[i]); } }
bool dependsOn(E e,const std::set<u32>&vars){ std::set<u32> s; collectVars(e,s); for(u32 v:s) if(vars.count(v)) return true; return false; }
u64 dagSize(const EV&r){ std::unordered_set<u32> seen; EV st(r); while(!st.empty()){ E x=st.back(); st.pop_back(); if(!seen.insert(x->id).second||x->k==CONST) continue; for(u32 i=0;i<x->n;i++) st.push_back(x->kid[i]); } return seen.size(); }
static const char* kn[]={"const","var","concat","extract","xor","and","or","add","mul","udiv","urem","sdiv","srem","shl","lshr","ashr","rotl","sext","ite","=","ult","slt","uf","tbl","clmul"};
std::string show(E e,int d){ std::ostringstream o; if(e->k==CONST){ SmallString<64> s; cval(e).toString(s,16,false); o<<"0x"<<s.c_str()<<":"<<e->w; return o.str(); } if(e->k==VAR){ o<<g_vars[e->aux].name<<"#"<<e->aux; return o.str(); } if(d==0){ o<<"@"<<e->id; return o.str(); } o<<"("<<kn[e->k]; if(e->k==UF) o<<":"<<g_ufs[e->aux].name<<(g_ufs[e->aux].prp==2?"^-1":""); if(e->k==EXTRACT) o<<"["<<e->aux<<"+"<<e->w<<"]"; if(e->k==ROTL||e->k==TBL) o<<"["<<e->aux<<"]"; for(u32 i=0;i<e->n&&i<10;i++) o<<" "<<show(e->kid[i],d-1); if(e->n>10) o<<" ..."; o<<")"; return o.str(); }
E rebuild(E e,const EV& k){
  switch(e->k){ case CONCAT:return mkConcat(k);case EXTRACT:return mkExtract(k[0],e->aux,e->w);case XOR:return mkXor(k);case AND:return mkAnd(k);case OR:return mkOr(k);case ADD:return mkAdd(k);case MUL:return mkMul(k[0],k[1]);
  case UDIV:case UREM:case SDIV:case SREM:return mkDiv(e->k,k[0],k[1]);case SHL:case LSHR:case ASHR:return mkShift(e->k,k[0],k[1]);case ROTL:return mkRotl(k[0],e->aux);case SEXT:return mkSext(k[0],e->w);case ITE:return mkIte(k[0],k[1],k[2]);case EQ:return mkEq(k[0],k[1]);case ULT:return mkUlt(k[0],k[1]);case SLT:return mkSlt(k[0],k[1]);case UF:return mkUF(e->aux,e->w,k);case TBL:return mkTbl(e->aux,k[0]);case CLMUL:return mkClmul(k[0],k[1]); default:return e; } }
E substitute(E e,const std::unordered_map<u32,E>&m,std::unordered_map<u32,E>&memo){
  auto it=m.find(e->id); if(it!=m.end()) return it->second; if(e->k==CONST||e->k==VAR) return e; auto j=memo.find(e->id); if(j!=memo.end()) return j->second;
  EV k; bool ch=false; for(u32 i=0;i<e->n;i++){ E x=substitute(e->kid[i],m,memo); if(x!=e->kid[i]) ch=true; k.push_back(x);} E r=ch?rebuild(e,k):e; memo[e->id]=r; return r; }

void showDiff(E a,E b,int d){ // debugging aid: descend to where two terms differ
  static std::set<std::pair<E,E>> seen; if(a==b||!seen.insert({a,b}).second) return;
  if(a->k==b->k&&a->w==b->w&&d<4000){ EV x,y; std::set<E> sb(b->kid,b->kid+b->n),sa(a->kid,a->kid+a->n); bool comm=a->k==XOR||a->k==ADD||a->k==AND||a->k==OR;
    if(comm){ for(u32 i=0;i<a->n;i++) if(!sb.count(a->kid[i])) x.push_back(a->kid[i]); for(u32 i=0;i<b->n;i++) if(!sa.count(b->kid[i])) y.push_back(b->kid[i]); if(x.size()==1&&y.size()==1){ showDiff(x[0],y[0],d+1); return; } if(x.size()+y.size()<a->n+b->n){ fprintf(stderr,"DIFF depth %d %d/%d kids differ\n",d,(int)x.size(),(int)y.size()); for(E e:x) fprintf(stderr," A %s\n",show(e,5).substr(0,600).c_str()); for(E e:y) fprintf(stderr," B %s\n",show(e,5).substr(0,600).c_str()); if(x.size()==y.size()&&x.size()<4) for(size_t i=0;i<x.size();i++) if(x[i]->k==y[i]->k) showDiff(x[i],y[i],d+1); return; } }
    else if(a->n==b->n&&a->aux==b->aux){ for(u32 i=0;i<a->n;i++) if(a->kid[i]!=b->kid[i]){ showDiff(a->kid[i],b->kid[i],d+1); return; } } }
  fprintf(stderr,"DIFF depth %d\n A %s\n B %s\n",d,show(a,getenv("SYMX_DD")?atoi(getenv("SYMX_DD")):4).c_str(),show(b,getenv("SYMX_DD")?atoi(getenv("SYMX_DD")):4).c_str()); }
