// C14: the deterministic generators BCG, CSG and HCG over arbitrary round layers, permutations and compression functions, with an arbitrary entropy provider
//@t 120
//@exclude BCG CSG HCG PrngFromName ProviderFromName
#include "sp185.h"
#include <map>
#include <memory>
#include <string>
#include <functional>
#include "Rijndael.h"
namespace CEX { namespace Cipher { namespace Block { namespace RijndaelBase {
typedef SecureVector<uint8_t> BCV;
template<> void Substitution<BCV>(BCV&S){ sym_uf("sub",S.data(),32,S.data(),32); }
template<> void ShiftRows256<BCV>(BCV&S){ sym_uf("shift",S.data(),32,S.data(),32); }
template<> void MixColumns<BCV>(BCV&S){ sym_uf("mix",S.data(),32,S.data(),32); }
}}}}
#define private public
#include "BCG.h"
#include "CSG.h"
#include "HCG.h"
#undef private
#include "BCG.cpp"
#include "CSG.cpp"
#include "HCG.cpp"
#include "SymmetricKey.h"
#include "ProviderFromName.h"
#include "PrngFromName.h"
#include "ParallelOptions.h"
using namespace CEX; using CEX::Drbg::BCG; using CEX::Drbg::CSG; using CEX::Drbg::HCG; using CEX::Drbg::IDrbg; using CEX::Enumeration::Providers; using CEX::Enumeration::ShakeModes; using CEX::Enumeration::SHA2Digests; using CEX::Cipher::SymmetricKey; typedef CEX::SecureVector<uint8_t> SBytes;
// the entropy provider: any bytes, recorded in the order they are drawn
static Bytes g_ent; static int g_dead=0;
struct Prv:Provider::IProvider { ~Prv(){ g_dead++; } const Enumeration::Providers Enumeral() override { return Enumeration::Providers::CSP; } const bool IsAvailable() override { return true; } const std::string Name() override { return std::string("p"); }
  template<class A> void z(A&o,size_t f,size_t l){ sym_assert(l<=o.size()&&f<=o.size()-l,"the entropy fits its buffer"); Bytes b=symBytes(l,"entropy"); for(size_t i=0;i<l;i++) o[f+i]=b[i]; g_ent.insert(g_ent.end(),b.begin(),b.end()); }
  void Generate(Bytes&o) override { z(o,0,o.size()); } void Generate(SBytes&o) override { z(o,0,o.size()); } void Generate(Bytes&o,size_t f,size_t l) override { z(o,f,l); } void Generate(SBytes&o,size_t f,size_t l) override { z(o,f,l); } uint16_t NextUInt16() override { return 0; } uint32_t NextUInt32() override { return 0; } uint64_t NextUInt64() override { return 0; } void Reset() override {} };
namespace CEX { namespace Helper { Prng::IPrng* PrngFromName::GetInstance(Enumeration::Prngs,Enumeration::Providers){ return nullptr; } Provider::IProvider* ProviderFromName::GetInstance(Enumeration::Providers){ return new Prv; } } }
struct Ent { size_t pos=0; Bytes take(size_t n){ sym_assert(pos+n<=g_ent.size(),"the generator draws the entropy it needs"); Bytes b(g_ent.begin()+pos,g_ent.begin()+pos+n); pos+=n; return b; } };
struct In { Bytes k,s,i; };
static std::unique_ptr<SymmetricKey> key(const In&i){ if(i.i.size()) return std::unique_ptr<SymmetricKey>(new SymmetricKey(i.k,i.s,i.i)); if(i.s.size()) return std::unique_ptr<SymmetricKey>(new SymmetricKey(i.k,i.s)); return std::unique_ptr<SymmetricKey>(new SymmetricKey(i.k)); }
static Bytes cat(std::initializer_list<Bytes> l){ Bytes o; for(auto&b:l) o.insert(o.end(),b.begin(),b.end()); return o; }
static Bytes str(const char*s){ return Bytes(s,s+strlen(s)); }
static bool thr(std::function<void()> f){ try{ f(); }catch(std::exception&){ return true; } return false; }
struct Ref { virtual void init(const In&)=0; virtual Bytes gen(size_t n)=0; virtual void update(const Bytes&k)=0; virtual void derive()=0; virtual ~Ref(){} Ent ent; bool prov=false; size_t thresh=102400000,count=0;
  Bytes draw(size_t n){ Bytes o=gen(n); if(prov){ count+=n; if(count>=thresh){ derive(); count=0; } } return o; } };
// a sponge: the key (and salt and name) absorbed, new entropy absorbed with its padding into the running state; each entropy input starts a new block of output
struct RCsg:Ref { std::array<uint64_t,25> S{}; size_t r; uint8_t dom=0; Bytes buf; RCsg(size_t rate):r(rate){}
  void perm(){ sym_uf("keccak24",S.data(),200,S.data(),200); }
  void blk(const uint8_t*p){ std::array<uint8_t,200> b{}; memcpy(b.data(),p,r); CEX::Tools::MemoryTools::XOR(b,0,S,0,r); } // the library's own XOR (C23), so that both sides build the same terms
  void absorb(Bytes p){ p.push_back(dom); while(p.size()%r) p.push_back(0); p.back()|=0x80; for(size_t i=0;i<p.size();i+=r){ blk(&p[i]); if(i+r<p.size()) perm(); } }
  void fill(){ perm(); buf.resize(r); memcpy(buf.data(),S.data(),r); }
  void init(const In&i) override { S.fill(0); buf.clear(); count=0; bool c=i.s.size()||i.i.size(); dom=c?4:0x1F; if(c){ Bytes p; lenc(p,r); estr(p,i.i); estr(p,i.s); pad0(p,r); for(size_t j=0;j<p.size();j+=r){ blk(&p[j]); perm(); } } absorb(i.k); }
  Bytes gen(size_t n) override { Bytes o; while(o.size()<n){ if(!buf.size()) fill(); o.push_back(buf[0]); buf.erase(buf.begin()); } return o; }
  void derive() override { absorb(ent.take((200-r)/2)); fill(); }
  void update(const Bytes&k) override { if(prov) derive(); absorb(k); fill(); } };
static void beadd(Bytes&n,uint32_t v){ size_t i=n.size(); uint32_t c=0; while(i--){ uint32_t t=(uint32_t)n[i]+(v&0xFF)+c; v>>=8; n[i]=(uint8_t)t; c=t>>8; } }
// HMAC over its own last block, the information code and a counter that grows by the block size; new entropy and the generator's own output make the next key
struct RHcg:Ref { DK d; Bytes kk,buf,code,ctr,last; RHcg(DK x):d(x){} size_t rate(){ return DI_[d].rate; }
  void fill(){ beadd(ctr,(uint32_t)rate()); last=refHmac(d,kk,cat({last,code,ctr})); buf=last; }
  void init(const In&i) override { count=0; uint16_t s=(uint16_t)(rate()/4*8); code=cat({str("CEX-"),str(d==dS256?"HCG-SHA2256":"HCG-SHA2512"),{(uint8_t)s,(uint8_t)(s>>8)},i.i}); ctr.assign(8,0); for(size_t j=0;j<8&&j<i.s.size();j++) ctr[j]=i.s[j]; kk=i.k; beadd(ctr,(uint32_t)code.size()); last=refHmac(d,kk,cat({code,ctr})); buf.clear(); }
  Bytes gen(size_t n) override { Bytes o; bool f=false; while(o.size()<n){ if(!buf.size()){ fill(); f=true; } o.push_back(buf[0]); buf.erase(buf.begin()); } if(f&&buf.size()) for(size_t j=0;j<last.size()-buf.size();j++) last[j]=0; return o; } // what was given out of a block in part is erased before the block is chained
  void rekey(const Bytes&a){ fill(); Bytes b=refHmac(d,kk,last); kk=cat({a,b}); fill(); }
  void derive() override { rekey(ent.take(rate()/2)); }
  void update(const Bytes&k) override { rekey(refHmac(d,kk,k)); } };
// the wide block cipher in counter mode; the round keys are cSHAKE-256 output
static void leinc(Bytes&n){ for(size_t i=0;i<16;i++) if(++n[i]) break; }
struct RBcg:Ref { Bytes ctr,info; int rounds=0; std::vector<uint32_t> rk;
  void init(const In&i) override { count=0; ctr=i.s; info=i.i; rounds=i.k.size()==128?38:(int)i.k.size()/4+14; uint16_t kb=(uint16_t)(8*i.k.size()); Bytes x=refXof(136,i.k,cat({str("BCG version 1.0b"),info}),cat({{(uint8_t)kb,(uint8_t)(kb>>8)},str("BCG")}),32*(size_t)(rounds+1)); rk.resize(8*(rounds+1)); for(size_t j=0;j<rk.size();j++) rk[j]=((uint32_t)x[4*j]<<24)|((uint32_t)x[4*j+1]<<16)|((uint32_t)x[4*j+2]<<8)|x[4*j+3]; }
  void add(Bytes&b,int r){ for(int j=0;j<8;j++){ uint32_t w=rk[8*r+j]; b[4*j]^=(uint8_t)(w>>24); b[4*j+1]^=(uint8_t)(w>>16); b[4*j+2]^=(uint8_t)(w>>8); b[4*j+3]^=(uint8_t)w; } }
  Bytes block(){ Bytes b=ctr; add(b,0); for(int r=1;r<rounds;r++){ sym_uf("sub",b.data(),32,b.data(),32); sym_uf("shift",b.data(),32,b.data(),32); sym_uf("mix",b.data(),32,b.data(),32); add(b,r); } sym_uf("sub",b.data(),32,b.data(),32); sym_uf("shift",b.data(),32,b.data(),32); add(b,rounds); leinc(ctr); return b; }
  Bytes gen(size_t n) override { Bytes o; while(o.size()<n){ Bytes b=block(); o.insert(o.end(),b.begin(),b.end()); } o.resize(n); return o; }
  void update(const Bytes&k0) override { Bytes k=k0; if(prov) k=refXof(136,k,ent.take(32),{},k.size()); In i{k,ctr,info}; init(i); }
  void derive() override { update(gen(32)); } };
static void out(IDrbg&g,Ref&r,size_t n,int f){ if(f==0){ Bytes o=symBytes(n,"junk"); g.Generate(o); assertEq(o,r.draw(n),"the output is the defined stream"); return; } if(f==1){ SBytes o(n); g.Generate(o); assertEq(Bytes(o.begin(),o.end()),r.draw(n),"the output is the defined stream"); return; }
  Bytes o=symBytes(n+7,"junk"),e=o; SBytes s(o.begin(),o.end()); if(f==2) g.Generate(o,5,n); else g.Generate(s,5,n); Bytes x=r.draw(n); if(n) memcpy(e.data()+5,x.data(),n); assertEq(f==2?o:Bytes(s.begin(),s.end()),e,"the output is the defined stream and nothing else is written"); }
enum GK { C128,C256,C512,H256,H512,B };
static size_t crate(int k){ return k==C128?168:k==C256?136:72; } static ShakeModes cmode(int k){ return k==C128?ShakeModes::SHAKE128:k==C256?ShakeModes::SHAKE256:ShakeModes::SHAKE512; }
static size_t blockOf(int k){ return k<=C512?crate(k):k==H256?32:k==H512?64:32; }
// way 0: no provider; 1: a provider by name; 2: a provider instance
static IDrbg* mk(int k,int way,Provider::IProvider*p=nullptr){ Providers n=way==1?Providers::CSP:Providers::None; switch(k){ case C128: case C256: case C512: if(way==2) return new CSG(cmode(k),p); return new CSG(cmode(k),n); case H256: case H512: { if(way==2) return new HCG(k==H256?(Digest::IDigest*)new Digest::SHA2256:(Digest::IDigest*)new Digest::SHA2512,p); return new HCG(k==H256?SHA2Digests::SHA2256:SHA2Digests::SHA2512,n); } default: if(way==2) return new BCG(p); return new BCG(n); } }
static std::unique_ptr<Ref> mr(int k,bool prov){ Ref*r=k<=C512?(Ref*)new RCsg(crate(k)):k<=H512?(Ref*)new RHcg(k==H256?dS256:dS512):(Ref*)new RBcg; r->prov=prov; return std::unique_ptr<Ref>(r); }
static In pick(int k,const char*p){ In i; i.k=symBytes(k==B?(sym_choose(0,1)?64:32):40,p); if(k==B){ i.s=symBytes(32,p); int c=(int)sym_choose(0,2); i.s[0]=c==0?0:c==1?0xFE:0xFF; if(c==2) for(int j=0;j<16;j++) i.s[j]=0xFF; if(c==1) i.s[1]=0x3F; } else if(sym_choose(0,1)) { i.s=symBytes(k<=C512?9:4,p); if(k>=H256){ int c=(int)sym_choose(0,2); Bytes t{0,0,0,1}; if(c==1) t={0,0xFE,0xFF,0xF0}; if(c==2) t={0xFF,0xFF,0xFF,0xE0}; if(c==2) i.s={0xFF,0xFF,0xFF,0xFF}; i.s.insert(i.s.end(),t.begin(),t.end()); } } if(i.s.size()&&sym_choose(0,1)) i.i=symBytes(7,p); return i; }
static void setT(int k,IDrbg&g,size_t t){ if(k<=C512) ((CSG&)g).ReseedThreshold()=t; else if(k<=H512) ((HCG&)g).ReseedThreshold()=t; else { ((BCG&)g).ReseedThreshold()=t; ((BCG&)g).ParallelProfile().IsParallel()=false; } }
// a stream of requests without a provider
static void plain(int k){ std::unique_ptr<IDrbg> g(mk(k,0)); setT(k,*g,102400000); auto r=mr(k,false); In i=pick(k,"k"); auto p=key(i); g->Initialize(*p); r->init(i); sym_assert(g->IsInitialized(),"initialised"); size_t b=blockOf(k); size_t a=k==B?b:sym_choose(1,2)*b-(size_t)sym_choose(0,1); for(size_t n:{a,k==B?(size_t)64:(size_t)5,b+3}) out(*g,*r,n,0); sym_reach(1); }
static void forms(int k){ std::unique_ptr<IDrbg> g(mk(k,0)); setT(k,*g,102400000); auto r=mr(k,false); In i=pick(k,"k"); auto p=key(i); g->Initialize(*p); r->init(i); out(*g,*r,blockOf(k)+9,(int)sym_choose(0,3)); sym_reach(1); }
// a wide request: eight blocks and a part
static void wide(int k){ std::unique_ptr<IDrbg> g(mk(k,0)); setT(k,*g,102400000); auto r=mr(k,false); In i; i.k=symBytes(32,"k"); if(k==B){ i.s=symBytes(32,"iv"); int c=(int)sym_choose(0,1); i.s[0]=c?0xFB:0; i.s[1]=0x7F; } auto p=key(i); g->Initialize(*p); r->init(i); out(*g,*r,8*blockOf(k)+blockOf(k)+11,(int)sym_choose(0,3)); out(*g,*r,blockOf(k),0); sym_reach(1); }
// a key update and another initialisation
static void upd(int k){ int way=(int)sym_choose(0,1); std::unique_ptr<IDrbg> g(mk(k,way)); setT(k,*g,102400000); g_ent.clear(); auto r=mr(k,way!=0); In i=pick(k,"k"); auto p=key(i); g->Initialize(*p); r->init(i); size_t b=blockOf(k); size_t pre=sym_choose(0,1)?b+3:0; if(pre) out(*g,*r,pre,0); for(int j=0;j<2;j++){ Bytes u=symBytes(k==B?32:j?b+5:64,"u"); if(sym_choose(0,1)){ SBytes s(u.begin(),u.end()); g->Update(s); } else g->Update(u); r->update(u); out(*g,*r,b+3,0); } sym_assert(r->ent.pos==g_ent.size(),"no other entropy is drawn"); sym_reach(1); }
static void again(int k){ std::unique_ptr<IDrbg> g(mk(k,0)); setT(k,*g,102400000); auto r=mr(k,false); In a=pick(k,"a"); auto p=key(a); g->Initialize(*p); if(sym_choose(0,1)){ Bytes o(9); g->Generate(o); } In i=pick(k,"k"); auto q=key(i); g->Initialize(*q); r->init(i); out(*g,*r,blockOf(k)+9,0); sym_reach(1); }
// automatic reseeding from a provider, owned or lent
static void reseed(int k){ g_ent.clear(); g_dead=0; Prv*pv=new Prv; int way=(int)sym_choose(1,2); std::unique_ptr<IDrbg> g(mk(k,way,pv)); size_t t=sym_choose(0,1)?blockOf(k):blockOf(k)+20; setT(k,*g,t); auto r=mr(k,true); r->thresh=t; In i; i.k=symBytes(k==B?32:40,"k"); if(k==B){ i.s=symBytes(32,"iv"); i.s[0]=0x11; } auto p=key(i); g->Initialize(*p); r->init(i); size_t b=blockOf(k); for(size_t n:{b,b/2,b,(size_t)9}) out(*g,*r,n,0); sym_assert(r->ent.pos==g_ent.size()&&g_ent.size()>0,"the entropy drawn is the entropy used"); if(way==2){ g.reset(); sym_assert(g_dead==0,"a lent provider is not destroyed"); sym_reach(2); } sym_reach(1); }
static void bad(int k){ std::unique_ptr<IDrbg> g(mk(k,0)); Bytes o(10); SBytes s(10); sym_assert(!g->IsInitialized()&&thr([&]{ g->Generate(o); })&&thr([&]{ g->Generate(s); })&&thr([&]{ g->Generate(o,0,10); })&&thr([&]{ g->Generate(s,0,10); }),"no output without a key"); In i=pick(k,"k"); In z=i; z.k=symBytes(15,"short"); auto q=key(z); sym_assert(thr([&]{ g->Initialize(*q); })&&!g->IsInitialized(),"a short key is refused"); auto p=key(i); g->Initialize(*p); sym_assert(thr([&]{ g->Generate(o,1,10); })&&thr([&]{ g->Generate(s,4,7); }),"a range beyond the output is refused"); sym_assert(thr([&]{ Bytes u(3); g->Update(u); }),"a short update is refused"); sym_reach(1); }
ENTRY c14_csg128_plain(){ plain(C128); } //@ reach=1 b="CSG with SHAKE-128: three requests in a row, with and without nonce and info"
ENTRY c14_csg128_forms(){ forms(C128); } //@ reach=1 b="CSG with SHAKE-128: four ways to ask"
ENTRY c14_csg128_wide(){ wide(C128); } //@ reach=1 b="CSG with SHAKE-128: nine blocks and a part, then more"
ENTRY c14_csg128_upd(){ upd(C128); } //@ reach=1 b="CSG with SHAKE-128: two key updates, with and without a provider"
ENTRY c14_csg128_again(){ again(C128); } //@ reach=1 b="CSG with SHAKE-128: another key before"
ENTRY c14_csg128_reseed(){ reseed(C128); } //@ reach=1,2 b="CSG with SHAKE-128: automatic reseeding over four requests, provider by name and by instance"
ENTRY c14_csg128_bad(){ bad(C128); } //@ reach=1 b="CSG with SHAKE-128: refusals"
ENTRY c14_csg256_plain(){ plain(C256); } //@ reach=1 b="CSG with SHAKE-256: three requests in a row, with and without nonce and info"
ENTRY c14_csg256_forms(){ forms(C256); } //@ reach=1 b="CSG with SHAKE-256: four ways to ask"
ENTRY c14_csg256_wide(){ wide(C256); } //@ reach=1 b="CSG with SHAKE-256: nine blocks and a part, then more"
ENTRY c14_csg256_upd(){ upd(C256); } //@ reach=1 b="CSG with SHAKE-256: two key updates, with and without a provider"
ENTRY c14_csg256_again(){ again(C256); } //@ reach=1 b="CSG with SHAKE-256: another key before"
ENTRY c14_csg256_reseed(){ reseed(C256); } //@ reach=1,2 b="CSG with SHAKE-256: automatic reseeding over four requests, provider by name and by instance"
ENTRY c14_csg256_bad(){ bad(C256); } //@ reach=1 b="CSG with SHAKE-256: refusals"
ENTRY c14_csg512_plain(){ plain(C512); } //@ reach=1 b="CSG with SHAKE-512: three requests in a row, with and without nonce and info"
ENTRY c14_csg512_forms(){ forms(C512); } //@ reach=1 b="CSG with SHAKE-512: four ways to ask"
ENTRY c14_csg512_wide(){ wide(C512); } //@ reach=1 b="CSG with SHAKE-512: nine blocks and a part, then more"
ENTRY c14_csg512_upd(){ upd(C512); } //@ reach=1 b="CSG with SHAKE-512: two key updates, with and without a provider"
ENTRY c14_csg512_again(){ again(C512); } //@ reach=1 b="CSG with SHAKE-512: another key before"
ENTRY c14_csg512_reseed(){ reseed(C512); } //@ reach=1,2 b="CSG with SHAKE-512: automatic reseeding over four requests, provider by name and by instance"
ENTRY c14_csg512_bad(){ bad(C512); } //@ reach=1 b="CSG with SHAKE-512: refusals"
ENTRY c14_hcg256_plain(){ plain(H256); } //@ reach=1 b="HCG with SHA2-256: three requests in a row, with and without nonce and info"
ENTRY c14_hcg256_forms(){ forms(H256); } //@ reach=1 b="HCG with SHA2-256: four ways to ask"
ENTRY c14_hcg256_wide(){ wide(H256); } //@ reach=1 b="HCG with SHA2-256: nine blocks and a part, then more"
ENTRY c14_hcg256_upd(){ upd(H256); } //@ reach=1 b="HCG with SHA2-256: two key updates, with and without a provider"
ENTRY c14_hcg256_again(){ again(H256); } //@ reach=1 b="HCG with SHA2-256: another key before"
ENTRY c14_hcg256_reseed(){ reseed(H256); } //@ reach=1,2 b="HCG with SHA2-256: automatic reseeding over four requests, provider by name and by instance"
ENTRY c14_hcg256_bad(){ bad(H256); } //@ reach=1 b="HCG with SHA2-256: refusals"
ENTRY c14_hcg512_plain(){ plain(H512); } //@ reach=1 b="HCG with SHA2-512: three requests in a row, with and without nonce and info"
ENTRY c14_hcg512_forms(){ forms(H512); } //@ reach=1 b="HCG with SHA2-512: four ways to ask"
ENTRY c14_hcg512_wide(){ wide(H512); } //@ reach=1 b="HCG with SHA2-512: nine blocks and a part, then more"
ENTRY c14_hcg512_upd(){ upd(H512); } //@ reach=1 b="HCG with SHA2-512: two key updates, with and without a provider"
ENTRY c14_hcg512_again(){ again(H512); } //@ reach=1 b="HCG with SHA2-512: another key before"
ENTRY c14_hcg512_reseed(){ reseed(H512); } //@ reach=1,2 b="HCG with SHA2-512: automatic reseeding over four requests, provider by name and by instance"
ENTRY c14_hcg512_bad(){ bad(H512); } //@ reach=1 b="HCG with SHA2-512: refusals"
ENTRY c14_bcg_plain(){ plain(B); } //@ reach=1 b="BCG: three requests in a row, with and without nonce and info"
ENTRY c14_bcg_forms(){ forms(B); } //@ reach=1 b="BCG: four ways to ask"
ENTRY c14_bcg_wide(){ wide(B); } //@ reach=1 b="BCG: nine blocks and a part, then more"
ENTRY c14_bcg_upd(){ upd(B); } //@ reach=1 b="BCG: two key updates, with and without a provider"
ENTRY c14_bcg_again(){ again(B); } //@ reach=1 b="BCG: another key before"
ENTRY c14_bcg_reseed(){ reseed(B); } //@ reach=1,2 b="BCG: automatic reseeding over four requests, provider by name and by instance"
ENTRY c14_bcg_bad(){ bad(B); } //@ reach=1 b="BCG: refusals"
ENTRY c14_csg128_custom(){ size_t r=crate(C128); size_t L[]={1,r-8,r-6,r-5,r-4,r-3,r,r+7}; std::unique_ptr<IDrbg> g(mk(C128,0)); auto e=mr(C128,false); In i{symBytes(32,"k"),symBytes(L[sym_choose(0,7)],"s"),symBytes(sym_choose(0,1)?L[sym_choose(0,7)]:0,"i")}; SymmetricKey p(i.k,i.s,i.i); g->Initialize(p); e->init(i); out(*g,*e,r+3,0); sym_reach(1); } //@ reach=1 b="CSG with SHAKE-128: customisation and name lengths around the rate"
ENTRY c14_csg256_custom(){ size_t r=crate(C256); size_t L[]={1,r-8,r-6,r-5,r-4,r-3,r,r+7}; std::unique_ptr<IDrbg> g(mk(C256,0)); auto e=mr(C256,false); In i{symBytes(32,"k"),symBytes(L[sym_choose(0,7)],"s"),symBytes(sym_choose(0,1)?L[sym_choose(0,7)]:0,"i")}; SymmetricKey p(i.k,i.s,i.i); g->Initialize(p); e->init(i); out(*g,*e,r+3,0); sym_reach(1); } //@ reach=1 b="CSG with SHAKE-256: customisation and name lengths around the rate"
ENTRY c14_csg512_custom(){ size_t r=crate(C512); size_t L[]={1,r-8,r-6,r-5,r-4,r-3,r,r+7}; std::unique_ptr<IDrbg> g(mk(C512,0)); auto e=mr(C512,false); In i{symBytes(32,"k"),symBytes(L[sym_choose(0,7)],"s"),symBytes(sym_choose(0,1)?L[sym_choose(0,7)]:0,"i")}; SymmetricKey p(i.k,i.s,i.i); g->Initialize(p); e->init(i); out(*g,*e,r+3,0); sym_reach(1); } //@ reach=1 b="CSG with SHAKE-512: customisation and name lengths around the rate"
