// C13: HKDF, KDF2 and PBKDF2 over arbitrary compression functions, SCBKDF over an arbitrary permutation
//@t 100
#include "sp185.h"
#include <map>
#include <memory>
#include <string>
#include <functional>
#define private public
#include "HKDF.h"
#include "KDF2.h"
#include "PBKDF2.h"
#include "SCBKDF.h"
#undef private
#include "SymmetricKey.h"
using namespace CEX::Kdf; using CEX::Enumeration::ShakeModes; using CEX::Enumeration::SHA2Digests; using CEX::Cipher::SymmetricKey; typedef CEX::SecureVector<uint8_t> SBytes;
struct In { Bytes k,s,i; };
static Bytes cat(std::initializer_list<Bytes> l){ Bytes o; for(auto&b:l) o.insert(o.end(),b.begin(),b.end()); return o; }
static std::unique_ptr<SymmetricKey> key(const In&i){ if(i.i.size()) return std::unique_ptr<SymmetricKey>(new SymmetricKey(i.k,i.s,i.i)); if(i.s.size()) return std::unique_ptr<SymmetricKey>(new SymmetricKey(i.k,i.s)); return std::unique_ptr<SymmetricKey>(new SymmetricKey(i.k)); }
static Bytes be32(uint32_t v){ return {(uint8_t)(v>>24),(uint8_t)(v>>16),(uint8_t)(v>>8),(uint8_t)v}; }
// RFC 5869; without a salt the key is used as the pseudo-random key
static Bytes refHkdf(DK d,const In&in,size_t n){ Bytes prk=in.s.size()?refHmac(d,in.s,in.k):in.k,t,o; for(int c=1;o.size()<n;c++){ t=refHmac(d,prk,cat({t,in.i,{(uint8_t)c}})); o.insert(o.end(),t.begin(),t.end()); } o.resize(n); return o; }
// ISO 18033-2 KDF2; without a salt the key is padded to one block, or its excess becomes the salt
static Bytes refKdf2(DK d,const In&in,size_t n){ size_t r=DI_[d].rate; Bytes z=in.k,s=cat({in.s,in.i}),o; if(!in.s.size()){ s.clear(); if(z.size()<=r) z.resize(r); else { s=cat({Bytes(z.begin()+r,z.end()),in.i}); z.resize(r); } } for(uint32_t c=1;o.size()<n;c++){ Bytes m=cat({z,be32(c),s}); Bytes h=refDigest(d,m.data(),m.size()); o.insert(o.end(),h.begin(),h.end()); } o.resize(n); return o; }
// RFC 8018
static Bytes refPbk(DK d,const In&in,size_t n,uint32_t it){ Bytes o; for(uint32_t c=1;o.size()<n;c++){ Bytes u=refHmac(d,in.k,cat({in.s,in.i,be32(c)})),t=u; for(uint32_t j=1;j<it;j++){ u=refHmac(d,in.k,u); for(size_t q=0;q<t.size();q++) t[q]^=u[q]; } o.insert(o.end(),t.begin(),t.end()); } o.resize(n); return o; }
enum KD { HK, KT, PB }; static uint32_t ITER=2;
static SHA2Digests sd(DK d){ return d==dS256?SHA2Digests::SHA2256:SHA2Digests::SHA2512; }
static std::unique_ptr<IKdf> mk(KD t,DK d){ switch(t){ case HK: return std::unique_ptr<IKdf>(new HKDF(sd(d))); case KT: return std::unique_ptr<IKdf>(new KDF2(sd(d))); default: return std::unique_ptr<IKdf>(new PBKDF2(sd(d),ITER)); } }
static Bytes ref(KD t,DK d,const In&i,size_t n){ return t==HK?refHkdf(d,i,n):t==KT?refKdf2(d,i,n):refPbk(d,i,n,ITER); }
static void out(IKdf&g,const Bytes&r,int f){ size_t n=r.size(); if(f==0){ Bytes o=symBytes(n,"junk"); g.Generate(o); assertEq(o,r,"the output is the defined stream"); return; } if(f==1){ SBytes o(n); g.Generate(o); assertEq(Bytes(o.begin(),o.end()),r,"the output is the defined stream"); return; }
  Bytes o=symBytes(n+7,"junk"),e=o; memcpy(e.data()+5,r.data(),n); if(f==2){ g.Generate(o,5,n); assertEq(o,e,"the output is the defined stream and nothing else is written"); } else { SBytes s(o.begin(),o.end()); g.Generate(s,5,n); assertEq(Bytes(s.begin(),s.end()),e,"the output is the defined stream and nothing else is written"); } }
static void one(KD t,DK d,const In&i,size_t n,int f){ auto g=mk(t,d); auto k=key(i); g->Initialize(*k); sym_assert(g->IsInitialized(),"initialised"); out(*g,ref(t,d,i,n),f); sym_reach(1); }
static void keys(KD t,DK d){ size_t r=DI_[d].rate; size_t K[]={16,r-1,r,r+1,2*r+3}; one(t,d,{symBytes(K[sym_choose(0,4)],"k"),symBytes(sym_choose(0,1)?20:0,"s"),{}},DI_[d].out+3,0); }
static void salts(KD t,DK d){ size_t r=DI_[d].rate; size_t S[]={16,21,r-1,r+2},I[]={0,1,13,r+1}; one(t,d,{symBytes(40,"k"),symBytes(S[sym_choose(0,3)],"s"),symBytes(I[sym_choose(0,3)],"i")},DI_[d].out+3,0); }
static void lens(KD t,DK d){ size_t T=DI_[d].out; size_t N[]={1,T-1,T,T+1,2*T,3*T+5}; bool s=sym_choose(0,1); one(t,d,{symBytes(32,"k"),symBytes(s?18:0,"s"),symBytes(s?5:0,"i")},N[sym_choose(0,5)],(int)sym_choose(0,3)); }
static In pick(int v,const char*p){ In i; i.k=symBytes(v==1?150:v==2?20:32,p); if(v>=2) i.s=symBytes(v==2?19:16,p); if(v>=3) i.i=symBytes(v==3?11:4,p); return i; }
static void hist(KD t,DK d){ auto g=mk(t,d); In a=pick((int)sym_choose(0,4),"a"); auto ka=key(a); g->Initialize(*ka); int p=(int)sym_choose(0,2); if(p){ Bytes x(p==1?3:DI_[d].out+1); g->Generate(x); } if(sym_choose(0,1)) g->Reset(); In b=pick((int)sym_choose(0,4),"b"); auto kb=key(b); g->Initialize(*kb); out(*g,ref(t,d,b,DI_[d].out+5),0); sym_reach(1); }
static void split(KD t,DK d){ auto g=mk(t,d); size_t T=DI_[d].out; In b=pick(3,"b"); auto kb=key(b); g->Initialize(*kb); Bytes r=ref(t,d,b,5*T+9); size_t a=sym_choose(1,2),c=sym_choose(1,2); size_t pos=0; int f=(int)sym_choose(0,3); for(size_t k:{a*T,c*T,(size_t)9}){ out(*g,Bytes(r.begin()+pos,r.begin()+pos+k),f); pos+=k; } sym_reach(1); }
static bool thr(std::function<void()> f){ try{ f(); }catch(std::exception&){ return true; } return false; }
static void bad(KD t,DK d){ auto g=mk(t,d); Bytes o(10); SBytes s(10); sym_assert(!g->IsInitialized()&&thr([&]{ g->Generate(o); })&&thr([&]{ g->Generate(s); })&&thr([&]{ g->Generate(o,0,10); })&&thr([&]{ g->Generate(s,0,10); }),"no output without a key"); { SymmetricKey k(symBytes(3,"short")); sym_assert(thr([&]{ g->Initialize(k); })&&!g->IsInitialized(),"a short key is refused"); } In i=pick(2,"k"); auto k=key(i); g->Initialize(*k); sym_assert(thr([&]{ g->Generate(o,1,10); })&&thr([&]{ g->Generate(s,4,7); }),"a range beyond the output is refused"); g->Reset(); sym_assert(!g->IsInitialized()&&thr([&]{ g->Generate(o); }),"no output after a reset"); sym_reach(1); }
// one generator never gives more than 255 blocks of HKDF output, and its counter never wraps
static void limit(DK d){ HKDF g(sd(d)); In i=pick(0,"k"); auto k=key(i); g.Initialize(*k); size_t T=DI_[d].out; size_t a=sym_choose(0,2); Bytes pre(a*T); if(a) g.Generate(pre); size_t rest=(255-a)*T; int f=(int)sym_choose(0,3); bool over=sym_choose(0,1); size_t n=rest+(over?1:0); Bytes o(n),o2(n+4); SBytes s(n),s2(n+4); bool t=thr([&]{ if(f==0) g.Generate(o); else if(f==1) g.Generate(s); else if(f==2) g.Generate(o2,4,n); else g.Generate(s2,4,n); }); sym_assert(t==over,"exactly 255 blocks can be drawn"); sym_reach(over?1:2); }
ENTRY c13_hkdf_256_keys(){ keys(HK,dS256); } //@ reach=1 b="HKDF with SHA2-256: key lengths around the block, salt or none"
ENTRY c13_hkdf_256_salts(){ salts(HK,dS256); } //@ reach=1 b="HKDF with SHA2-256: salt and info lengths around the block"
ENTRY c13_hkdf_256_lens(){ lens(HK,dS256); } //@ reach=1 b="HKDF with SHA2-256: output lengths 1 to three blocks, four ways to ask"
ENTRY c13_hkdf_256_hist(){ hist(HK,dS256); } //@ reach=1 b="HKDF with SHA2-256: another key, salt and info, output or none, Reset or not, before"
ENTRY c13_hkdf_256_split(){ split(HK,dS256); } //@ reach=1 b="HKDF with SHA2-256: requests of whole blocks, then a part"
ENTRY c13_hkdf_256_bad(){ bad(HK,dS256); } //@ reach=1 b="HKDF with SHA2-256: refusals"
ENTRY c13_hkdf_512_keys(){ keys(HK,dS512); } //@ reach=1 b="HKDF with SHA2-512: key lengths around the block, salt or none"
ENTRY c13_hkdf_512_salts(){ salts(HK,dS512); } //@ reach=1 b="HKDF with SHA2-512: salt and info lengths around the block"
ENTRY c13_hkdf_512_lens(){ lens(HK,dS512); } //@ reach=1 b="HKDF with SHA2-512: output lengths 1 to three blocks, four ways to ask"
ENTRY c13_hkdf_512_hist(){ hist(HK,dS512); } //@ reach=1 b="HKDF with SHA2-512: another key, salt and info, output or none, Reset or not, before"
ENTRY c13_hkdf_512_split(){ split(HK,dS512); } //@ reach=1 b="HKDF with SHA2-512: requests of whole blocks, then a part"
ENTRY c13_hkdf_512_bad(){ bad(HK,dS512); } //@ reach=1 b="HKDF with SHA2-512: refusals"
ENTRY c13_kdf2_256_keys(){ keys(KT,dS256); } //@ reach=1 b="KDF2 with SHA2-256: key lengths around the block, salt or none"
ENTRY c13_kdf2_256_salts(){ salts(KT,dS256); } //@ reach=1 b="KDF2 with SHA2-256: salt and info lengths around the block"
ENTRY c13_kdf2_256_lens(){ lens(KT,dS256); } //@ reach=1 b="KDF2 with SHA2-256: output lengths 1 to three blocks, four ways to ask"
ENTRY c13_kdf2_256_hist(){ hist(KT,dS256); } //@ reach=1 b="KDF2 with SHA2-256: another key, salt and info, output or none, Reset or not, before"
ENTRY c13_kdf2_256_split(){ split(KT,dS256); } //@ reach=1 b="KDF2 with SHA2-256: requests of whole blocks, then a part"
ENTRY c13_kdf2_256_bad(){ bad(KT,dS256); } //@ reach=1 b="KDF2 with SHA2-256: refusals"
ENTRY c13_kdf2_512_keys(){ keys(KT,dS512); } //@ reach=1 b="KDF2 with SHA2-512: key lengths around the block, salt or none"
ENTRY c13_kdf2_512_salts(){ salts(KT,dS512); } //@ reach=1 b="KDF2 with SHA2-512: salt and info lengths around the block"
ENTRY c13_kdf2_512_lens(){ lens(KT,dS512); } //@ reach=1 b="KDF2 with SHA2-512: output lengths 1 to three blocks, four ways to ask"
ENTRY c13_kdf2_512_hist(){ hist(KT,dS512); } //@ reach=1 b="KDF2 with SHA2-512: another key, salt and info, output or none, Reset or not, before"
ENTRY c13_kdf2_512_split(){ split(KT,dS512); } //@ reach=1 b="KDF2 with SHA2-512: requests of whole blocks, then a part"
ENTRY c13_kdf2_512_bad(){ bad(KT,dS512); } //@ reach=1 b="KDF2 with SHA2-512: refusals"
ENTRY c13_pbkdf2_256_keys(){ keys(PB,dS256); } //@ reach=1 b="PBKDF2 with SHA2-256: key lengths around the block, salt or none"
ENTRY c13_pbkdf2_256_salts(){ salts(PB,dS256); } //@ reach=1 b="PBKDF2 with SHA2-256: salt and info lengths around the block"
ENTRY c13_pbkdf2_256_lens(){ lens(PB,dS256); } //@ reach=1 b="PBKDF2 with SHA2-256: output lengths 1 to three blocks, four ways to ask"
ENTRY c13_pbkdf2_256_hist(){ hist(PB,dS256); } //@ reach=1 b="PBKDF2 with SHA2-256: another key, salt and info, output or none, Reset or not, before"
ENTRY c13_pbkdf2_256_split(){ split(PB,dS256); } //@ reach=1 b="PBKDF2 with SHA2-256: requests of whole blocks, then a part"
ENTRY c13_pbkdf2_256_bad(){ bad(PB,dS256); } //@ reach=1 b="PBKDF2 with SHA2-256: refusals"
ENTRY c13_pbkdf2_512_keys(){ keys(PB,dS512); } //@ reach=1 b="PBKDF2 with SHA2-512: key lengths around the block, salt or none"
ENTRY c13_pbkdf2_512_salts(){ salts(PB,dS512); } //@ reach=1 b="PBKDF2 with SHA2-512: salt and info lengths around the block"
ENTRY c13_pbkdf2_512_lens(){ lens(PB,dS512); } //@ reach=1 b="PBKDF2 with SHA2-512: output lengths 1 to three blocks, four ways to ask"
ENTRY c13_pbkdf2_512_hist(){ hist(PB,dS512); } //@ reach=1 b="PBKDF2 with SHA2-512: another key, salt and info, output or none, Reset or not, before"
ENTRY c13_pbkdf2_512_split(){ split(PB,dS512); } //@ reach=1 b="PBKDF2 with SHA2-512: requests of whole blocks, then a part"
ENTRY c13_pbkdf2_512_bad(){ bad(PB,dS512); } //@ reach=1 b="PBKDF2 with SHA2-512: refusals"
ENTRY c13_hkdf_256_limit(){ limit(dS256); } //@ reach=1,2 b="HKDF with SHA2-256: 0 to 2 blocks drawn before the boundary of 255 blocks"
ENTRY c13_hkdf_512_limit(){ limit(dS512); } //@ reach=1,2 b="HKDF with SHA2-512: 0 to 2 blocks drawn before the boundary of 255 blocks"
ENTRY c13_pbkdf2_256_iter(){ uint32_t I[]={1,2,3,4}; ITER=I[sym_choose(0,3)]; In i=pick(2,"k"); one(PB,dS256,i,DI_[dS256].out+3,(int)sym_choose(0,1)); } //@ reach=1 b="PBKDF2 with SHA2-256: 1 to 4 iterations"
ENTRY c13_pbkdf2_512_iter(){ uint32_t I[]={1,2,3,4}; ITER=I[sym_choose(0,3)]; In i=pick(2,"k"); one(PB,dS512,i,DI_[dS512].out+3,(int)sym_choose(0,1)); } //@ reach=1 b="PBKDF2 with SHA2-512: 1 to 4 iterations"
// SCBKDF: absorb the cache into the sponge and grow it by one block, as often as the cost asks for
static const size_t RATE[]={168,136,72}; static ShakeModes mode(int v){ return v==0?ShakeModes::SHAKE128:v==1?ShakeModes::SHAKE256:ShakeModes::SHAKE512; }
struct Sc { std::array<uint64_t,25> S{}; Bytes cache; size_t r,cost,mem;
  Bytes bytes(size_t n){ Bytes b(n); memcpy(b.data(),S.data(),n); return b; }
  void perm(){ sym_uf("keccak24",S.data(),200,S.data(),200); }
  void xorb(const uint8_t*p){ for(size_t i=0;i<r/8;i++){ uint64_t w; memcpy(&w,p+8*i,8); S[i]^=w; } }
  void absorb(const Bytes&m,uint8_t dom){ Bytes p=m; p.push_back(dom); while(p.size()%r) p.push_back(0); p.back()|=0x80; for(size_t i=0;i<p.size();i+=r){ std::array<uint8_t,200> b{}; memcpy(b.data(),&p[i],r); CEX::Tools::MemoryTools::XOR(b,0,S,0,r); if(i+r<p.size()) perm(); } }
  void init(const In&i,size_t rate,size_t c,size_t m){ r=rate; cost=c; mem=m; if(i.s.size()||i.i.size()){ Bytes p; lenc(p,r); estr(p,i.i); estr(p,i.s); pad0(p,r); for(size_t j=0;j<p.size();j+=r){ xorb(&p[j]); perm(); } } absorb(i.k,0x24); perm(); cache=bytes(r); }
  Bytes gen(size_t n){ for(size_t c=0;c<cost;c++){ absorb(cache,0x24); if(cache.size()<mem*1000000){ Bytes b=bytes(r); cache.insert(cache.end(),b.begin(),b.end()); } } Bytes o; while(o.size()<n){ perm(); Bytes b=bytes(r); o.insert(o.end(),b.begin(),b.end()); } o.resize(n); return o; } };
static void scb(int v,const In&i,size_t cost,size_t mem,std::initializer_list<size_t> ns,int f){ sym_coarse(1); SCBKDF g(mode(v),cost,mem); auto k=key(i); g.Initialize(*k); Sc s; s.init(i,RATE[v],cost,mem); for(size_t n:ns) out(g,s.gen(n),f); sym_reach(1); }
static void scbcost(int v){ scb(v,pick(sym_choose(0,1)?3:0,"k"),sym_choose(1,4),sym_choose(0,1),{(size_t)40},0); }
static void scbkey(int v){ size_t r=RATE[v]; size_t K[]={16,r-1,r,r+1,2*r+5}; scb(v,{symBytes(K[sym_choose(0,4)],"k"),{},{}},2,1,{(size_t)40},0); }
static void scblen(int v){ size_t r=RATE[v]; size_t N[]={1,r-1,r,r+1,2*r+9}; scb(v,pick(2,"k"),2,1,{N[sym_choose(0,4)]},(int)sym_choose(0,3)); }
static void scbhist(int v){ sym_coarse(1); SCBKDF g(mode(v),2,1); In a=pick((int)sym_choose(0,4),"a"); auto ka=key(a); g.Initialize(*ka); if(sym_choose(0,1)){ Bytes x(9); g.Generate(x); } if(sym_choose(0,1)) g.Reset(); In b=pick((int)sym_choose(0,4),"b"); auto kb=key(b); g.Initialize(*kb); Sc s; s.init(b,RATE[v],2,1); out(g,s.gen(50),0); sym_reach(1); }
ENTRY c13_scb128_cost(){ scbcost(0); } //@ reach=1 b="SCBKDF-128: cost 1 to 5, cache growing or not"
ENTRY c13_scb256_cost(){ scbcost(1); } //@ reach=1 b="SCBKDF-256: cost 1 to 5, cache growing or not"
ENTRY c13_scb512_cost(){ scbcost(2); } //@ reach=1 b="SCBKDF-512: cost 1 to 5, cache growing or not"
ENTRY c13_scb128_key(){ scbkey(0); } //@ reach=1 b="SCBKDF-128: key lengths around the rate"
ENTRY c13_scb256_key(){ scbkey(1); } //@ reach=1 b="SCBKDF-256: key lengths around the rate"
ENTRY c13_scb512_key(){ scbkey(2); } //@ reach=1 b="SCBKDF-512: key lengths around the rate"
ENTRY c13_scb128_len(){ scblen(0); } //@ reach=1 b="SCBKDF-128: output lengths around the rate, four ways to ask"
ENTRY c13_scb256_len(){ scblen(1); } //@ reach=1 b="SCBKDF-256: output lengths around the rate, four ways to ask"
ENTRY c13_scb512_len(){ scblen(2); } //@ reach=1 b="SCBKDF-512: output lengths around the rate, four ways to ask"
ENTRY c13_scb128_hist(){ scbhist(0); } //@ reach=1 b="SCBKDF-128: another key, salt and info, output or none, Reset or not, before"
ENTRY c13_scb256_hist(){ scbhist(1); } //@ reach=1 b="SCBKDF-256: another key, salt and info, output or none, Reset or not, before"
ENTRY c13_scb512_hist(){ scbhist(2); } //@ reach=1 b="SCBKDF-512: another key, salt and info, output or none, Reset or not, before"
