// C08: what the tag covers. The MAC is replaced by a recorder of the bytes it is fed and of its key.
//@t 100
#include "sym.h"
static void havoc(void*o,size_t n){ Bytes b=symBytes(n,"stream"); for(size_t i=0;i<n;++i) ((uint8_t*)o)[i]=b[i]; }
#define sym_uf(name,o,n,i,m) havoc(o,n) // what the permutations return does not matter here: arbitrary bytes each time
#include "c08.h"
static Bytes g_log,g_key; static std::vector<Bytes> g_logs;
namespace CEX { namespace Mac {
void KMAC::Initialize(ISymmetricKey &P){ (void)P; g_log.clear(); }
void KMAC::Update(const std::vector<uint8_t>&I,size_t o,size_t n){ sym_assert(o+n<=I.size(),"range"); for(size_t i=0;i<n;++i) g_log.push_back(I[o+i]); }
size_t KMAC::Finalize(SecureVector<uint8_t>&O,size_t o){ g_logs.push_back(g_log); for(size_t i=o;i<O.size();++i) O[i]=(uint8_t)i; return O.size(); }
}}
struct Rec { Bytes iv,ct,log; std::vector<Bytes> aad; };
static Rec run(SK k,const Bytes&key,size_t n,int split){
  Rec r; IStreamCipher*c=makeStream(k,true); c->ParallelProfile().IsParallel()=false; r.iv=symBytes(SI[k].nonce,"iv"); for(int i=0;i<2;++i) r.iv[i]=0;
  initStream(c,true,key,r.iv,Bytes()); size_t L[6][2]={{0,0},{6,0},{1,1},{2,0},{252,100},{356,0}}; for(int i=0;i<2;++i) if(L[split][i]){ Bytes a=symBytes(L[split][i],"aad"); c->SetAssociatedData(a,0,a.size()); r.aad.push_back(a); }
  size_t t=c->TagSize(); Bytes m=symBytes(n,"data"),o(n+t); c->Transform(m,0,o,0,n); r.ct=sub(o,0,n); r.log=g_logs.back(); delete c; return r; }
static void bind(SK k){
  Bytes key=symBytes(SI[k].key,"key"); static const size_t N[]={0,6,9,14}; int nl=k==sRCS?0:3; bool big=sym_choose(0,1)!=0; Rec a,b; // long associated data: only empty messages
  if(big){ a=run(k,key,0,5); b=run(k,key,0,4); } else { a=run(k,key,N[sym_choose(0,nl)],(int)sym_choose(0,3)); b=run(k,key,N[sym_choose(0,nl)],(int)sym_choose(0,3)); }
  Bytes fa,fb; for(auto&x:a.aad) app(fa,x); for(auto&x:b.aad) app(fb,x); bool calls=k==sCHACHA||a.aad.size()==b.aad.size();
  bool same=a.log.size()==b.log.size()&&sym_eq(a.log.data(),b.log.data(),a.log.size()); if(!same){ sym_reach(1); return; }
  sym_assert(calls&&fa.size()==fb.size()&&sym_eq(fa.data(),fb.data(),fa.size()),"messages with one tag have one associated data");
  sym_assert(a.ct.size()==b.ct.size()&&sym_eq(a.ct.data(),b.ct.data(),a.ct.size()),"messages with one tag have one ciphertext");
  sym_assert(sym_eq(a.iv.data(),b.iv.data(),a.iv.size()),"messages with one tag have one nonce"); sym_reach(2); }
ENTRY c08_bind_chacha(){ bind(sCHACHA); } //@ reach=1,2 b="ChaChaP20: two messages under one key, 0,6,9,14 bytes each, associated data of none, 6, 1+1 or 2 bytes each, and 252+100 against 356 bytes, every content and nonce"
ENTRY c08_bind_csx512(){ bind(sCSX512); } //@ reach=1,2 b="CSX512, as above"
ENTRY c08_bind_tsx256(){ bind(sTSX256); } //@ reach=1,2 b="TSX256, as above"
ENTRY c08_bind_tsx512(){ bind(sTSX512); } //@ reach=1,2 b="TSX512, as above"
ENTRY c08_bind_tsx1024(){ bind(sTSX1024); } //@ reach=1,2 b="TSX1024, as above"
ENTRY c08_bind_rcs(){ bind(sRCS); } //@ reach=1,2 b="RCS, empty messages, as above"
