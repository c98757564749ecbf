// C11: SHAKE and cSHAKE over an arbitrary permutation
//@t 100
#include "sp185.h"
#include "SHAKE.h"
#include "SymmetricKey.h"
#include <functional>
using CEX::Kdf::SHAKE; using CEX::Enumeration::ShakeModes; using CEX::Cipher::SymmetricKey; typedef CEX::SecureVector<uint8_t> SBytes;
static const size_t RATE[]={168,136,72}; static ShakeModes mode(int v){ return v==0?ShakeModes::SHAKE128:v==1?ShakeModes::SHAKE256:ShakeModes::SHAKE512; }
static SBytes sec(const Bytes&b){ return SBytes(b.begin(),b.end()); }
struct In { Bytes k,c,n; };
static void init(SHAKE&g,const In&i,int f){ size_t kn=i.k.size(); Bytes pk(3); pk.insert(pk.end(),i.k.begin(),i.k.end()); pk.resize(kn+5);
  if(i.n.size()==0&&i.c.size()==0) switch(f%7){ case 0: g.Initialize(i.k); return; case 1: g.Initialize(sec(i.k)); return; case 2: g.Initialize(pk,(size_t)3,kn); return; case 3: g.Initialize(sec(pk),(size_t)3,kn); return; case 4: g.Initialize(i.k,i.c); return; case 5: { SymmetricKey s(i.k); g.Initialize(s); return; } default: g.Initialize(sec(i.k),sec(i.c),sec(i.n)); return; }
  if(i.n.size()==0) switch(f%3){ case 0: g.Initialize(i.k,i.c); return; case 1: g.Initialize(sec(i.k),sec(i.c)); return; default: { SymmetricKey s(i.k,i.c); g.Initialize(s); return; } }
  switch(f%3){ case 0: g.Initialize(i.k,i.c,i.n); return; case 1: g.Initialize(sec(i.k),sec(i.c),sec(i.n)); return; default: { SymmetricKey s(i.k,i.c,i.n); g.Initialize(s); return; } } }
static void out(SHAKE&g,const Bytes&ref,size_t n,int f){ if(f==0){ Bytes o=symBytes(n,"junk"); g.Generate(o); assertEq(o,Bytes(ref.begin(),ref.begin()+n),"the output is the defined stream"); return; } if(f==1){ SBytes o(n); g.Generate(o); assertEq(Bytes(o.begin(),o.end()),Bytes(ref.begin(),ref.begin()+n),"the output is the defined stream"); return; }
  Bytes o=symBytes(n+7,"junk"),e=o; memcpy(e.data()+5,ref.data(),n); if(f==2){ g.Generate(o,5,n); assertEq(o,e,"the output is the defined stream and nothing else is written"); } else { SBytes s(o.begin(),o.end()); g.Generate(s,5,n); assertEq(Bytes(s.begin(),s.end()),e,"the output is the defined stream and nothing else is written"); } }
static void one(int v,const In&i,int fi,size_t n,int fo){ SHAKE g(mode(v)); init(g,i,fi); sym_assert(g.IsInitialized(),"initialised"); out(g,refXof(RATE[v],i.k,i.c,i.n,n),n,fo); sym_reach(1); }
static void klen(int v){ size_t r=RATE[v]; size_t K[]={16,r-9,r-8,r-1,r,r+1,2*r-1,2*r,2*r+5}; one(v,{symBytes(K[sym_choose(0,8)],"k")},(int)sym_choose(0,6),r+3,0); }
static void olen(int v){ size_t r=RATE[v]; size_t O[]={0,1,7,8,r-1,r,r+1,2*r,2*r+9,3*r}; one(v,{symBytes(32,"k")},0,O[sym_choose(0,9)],(int)sym_choose(0,3)); }
static void cust(int v){ size_t r=RATE[v]; size_t C[]={4,9,31,32,r-8,r-7,r-6,r-5,r-4,r,2*r}; one(v,{symBytes(32,"k"),symBytes(C[sym_choose(0,10)],"c")},(int)sym_choose(0,2),40,0); }
static void name(int v){ size_t r=RATE[v]; size_t N[]={1,5,31,32,r-8,r-6,r-5,r}; size_t C[]={0,4,r-10}; one(v,{symBytes(32,"k"),symBytes(C[sym_choose(0,2)],"c"),symBytes(N[sym_choose(0,7)],"n")},(int)sym_choose(0,2),40,0); }
static void hist(int v){ size_t r=RATE[v]; SHAKE g(mode(v)); int h=(int)sym_choose(0,3); In a; a.k=symBytes(h&1?40:r+2,"a"); if(h&1) a.c=symBytes(6,"ac"); if(h==3) a.n=symBytes(5,"an"); init(g,a,0); int p=(int)sym_choose(0,3); if(p){ Bytes t(p==1?3:p==2?r:r+8); g.Generate(t); } if(sym_choose(0,1)){ g.Reset(); } int q=(int)sym_choose(0,2); In b; b.k=symBytes(32,"b"); if(q) b.c=symBytes(9,"bc"); if(q==2) b.n=symBytes(3,"bn"); init(g,b,0); size_t n=r+r/2; out(g,refXof(r,b.k,b.c,b.n,n),n,0); sym_reach(1); }
static void split(int v){ size_t r=RATE[v]; In b{symBytes(32,"b")}; SHAKE g(mode(v)); init(g,b,0); Bytes ref=refXof(r,b.k,b.c,b.n,5*r+9); size_t a=sym_choose(1,2),c=sym_choose(1,2); size_t pos=0; for(size_t k:{a*r,c*r,(size_t)9}){ Bytes o(k); g.Generate(o); sym_assert_eq(o.data(),ref.data()+pos,k,"requests of whole blocks continue the stream"); pos+=k; } sym_reach(1); }
static void bad(int v){ SHAKE g(mode(v)); auto thr=[&](std::function<void()> f){ try{ f(); }catch(std::exception&){ return true; } return false; }; Bytes o(10); SBytes s(10); sym_assert(thr([&]{ g.Generate(o); })&&thr([&]{ g.Generate(s); })&&thr([&]{ g.Generate(o,0,10); })&&thr([&]{ g.Generate(s,0,10); }),"no output without a key"); Bytes k=symBytes(32,"k"); g.Initialize(k); sym_assert(thr([&]{ g.Generate(o,1,10); })&&thr([&]{ g.Generate(s,4,7); }),"a range beyond the output is refused"); sym_assert(thr([&]{ Bytes z(3); g.Initialize(z); }),"a short key is refused"); sym_reach(1); }
ENTRY c11_128_key(){ klen(0); } //@ reach=1 b="SHAKE-128: key lengths around the rate, seven ways to initialise"
ENTRY c11_128_out(){ olen(0); } //@ reach=1 b="SHAKE-128: output lengths 0 to three blocks, four ways to ask, offset 0 and 5"
ENTRY c11_128_cust(){ cust(0); } //@ reach=1 b="cSHAKE-128: customisation lengths around the rate"
ENTRY c11_128_name(){ name(0); } //@ reach=1 b="cSHAKE-128: name lengths around the rate"
ENTRY c11_128_hist(){ hist(0); } //@ reach=1 b="SHAKE-128: another key, customisation and name, output or none, Reset or not, before"
ENTRY c11_128_split(){ split(0); } //@ reach=1 b="SHAKE-128: requests of one or two blocks each, then a part"
ENTRY c11_128_bad(){ bad(0); } //@ reach=1 b="SHAKE-128: refusals"
ENTRY c11_256_key(){ klen(1); } //@ reach=1 b="SHAKE-256: key lengths around the rate, seven ways to initialise"
ENTRY c11_256_out(){ olen(1); } //@ reach=1 b="SHAKE-256: output lengths 0 to three blocks, four ways to ask, offset 0 and 5"
ENTRY c11_256_cust(){ cust(1); } //@ reach=1 b="cSHAKE-256: customisation lengths around the rate"
ENTRY c11_256_name(){ name(1); } //@ reach=1 b="cSHAKE-256: name lengths around the rate"
ENTRY c11_256_hist(){ hist(1); } //@ reach=1 b="SHAKE-256: another key, customisation and name, output or none, Reset or not, before"
ENTRY c11_256_split(){ split(1); } //@ reach=1 b="SHAKE-256: requests of one or two blocks each, then a part"
ENTRY c11_256_bad(){ bad(1); } //@ reach=1 b="SHAKE-256: refusals"
ENTRY c11_512_key(){ klen(2); } //@ reach=1 b="SHAKE-512: key lengths around the rate, seven ways to initialise"
ENTRY c11_512_out(){ olen(2); } //@ reach=1 b="SHAKE-512: output lengths 0 to three blocks, four ways to ask, offset 0 and 5"
ENTRY c11_512_cust(){ cust(2); } //@ reach=1 b="cSHAKE-512: customisation lengths around the rate"
ENTRY c11_512_name(){ name(2); } //@ reach=1 b="cSHAKE-512: name lengths around the rate"
ENTRY c11_512_hist(){ hist(2); } //@ reach=1 b="SHAKE-512: another key, customisation and name, output or none, Reset or not, before"
ENTRY c11_512_split(){ split(2); } //@ reach=1 b="SHAKE-512: requests of one or two blocks each, then a part"
ENTRY c11_512_bad(){ bad(2); } //@ reach=1 b="SHAKE-512: refusals"
