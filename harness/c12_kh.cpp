// C12: HMAC, KMAC and KPA over arbitrary compression functions and permutations
//@t 100
#include "dig.h"
#include "ULong256.h"
#include "mac12.h"
#include "HMAC.h"
#include "KMAC.h"
#include "KPA.h"
using namespace CEX::Mac; using CEX::Enumeration::KmacModes; using CEX::Enumeration::KpaModes; using CEX::Enumeration::SHA2Digests; using CEX::Numeric::ULong256;
typedef std::array<ULong256,25> KW;
namespace CEX { namespace Digest { template<> void Keccak::PermuteR24P4x1600H<KW>(KW&S,size_t R){ for(int l=0;l<4;l++){ uint64_t t[25]; for(int i=0;i<25;i++) memcpy(&t[i],(uint8_t*)&S[i]+8*l,8); sym_uf(kecName((int)R),t,200,t,200); for(int i=0;i<25;i++) memcpy((uint8_t*)&S[i]+8*l,&t[i],8); } } } }
static Bytes refHmac(DK d,const Bytes&key,const Bytes&m){ size_t r=DI_[d].rate; Bytes k=key; if(k.size()>r) k=refDigest(d,k.data(),k.size()); k.resize(r); Bytes a(r),b(r); for(size_t i=0;i<r;i++){ a[i]=k[i]^0x36; b[i]=k[i]^0x5c; } a.insert(a.end(),m.begin(),m.end()); Bytes h=refDigest(d,a.data(),a.size()); b.insert(b.end(),h.begin(),h.end()); return refDigest(d,b.data(),b.size()); }
static size_t hkey(size_t r){ size_t N[]={16,r-1,r,r+1,2*r}; return N[sym_choose(0,4)]; }
#define HM(D,E) DK d=D; size_t r=DI_[d].rate; HMAC m(E); MacRef ref=[&](const MacKey&k,const Bytes&x,size_t){ return refHmac(d,k.key,x); };
ENTRY c12_hmac256_key(){ HM(dS256,SHA2Digests::SHA2256) MacKey k{symBytes(hkey(r),"key")}; macInit(m,k); macOne(m,k,(size_t)sym_choose(0,1)*70,0,(int)sym_choose(0,2),false,ref); sym_assert(m.TagSize()==DI_[d].out,"tag size"); sym_reach(1); } //@ reach=1 b="HMAC-SHA256 over any compression function: keys of 16, 63, 64, 65, 128 bytes"
ENTRY c12_hmac256_len(){ HM(dS256,SHA2Digests::SHA2256) macLen(m,{symBytes(32,"key")},r,3,false,ref); } //@ reach=1 b="messages of q*64+d bytes, q 0..3, d in {0,1,-1,-2,-3,-4,-9,5}; Compute, Finalize at an offset, Finalize into secure memory"
ENTRY c12_hmac256_cut(){ HM(dS256,SHA2Digests::SHA2256) macCut(m,{symBytes(32,"key")},r,false,ref); } //@ reach=2 b="messages cut in two around the block boundaries"
ENTRY c12_hmac256_hist(){ HM(dS256,SHA2Digests::SHA2256) macHist(m,{symBytes(32,"key")},{symBytes(hkey(r),"old")},r,false,ref); } //@ reach=3 b="after another key and a message finished or abandoned, with and without Reset"
ENTRY c12_hmac512_key(){ HM(dS512,SHA2Digests::SHA2512) MacKey k{symBytes(hkey(r),"key")}; macInit(m,k); macOne(m,k,(size_t)sym_choose(0,1)*140,0,(int)sym_choose(0,2),false,ref); sym_assert(m.TagSize()==DI_[d].out,"tag size"); sym_reach(1); } //@ reach=1 b="HMAC-SHA512: keys of 16, 127, 128, 129, 256 bytes"
ENTRY c12_hmac512_len(){ HM(dS512,SHA2Digests::SHA2512) macLen(m,{symBytes(64,"key")},r,2,false,ref); } //@ reach=1 b="HMAC-SHA512: lengths, q 0..2"
ENTRY c12_hmac512_hist(){ HM(dS512,SHA2Digests::SHA2512) macHist(m,{symBytes(64,"key")},{symBytes(hkey(r),"old")},r,false,ref); } //@ reach=3 b="HMAC-SHA512: histories"
ENTRY c12_hmac_bad(){ HMAC m(sym_choose(0,1)?SHA2Digests::SHA2256:SHA2Digests::SHA2512); macBad(m,{symBytes(32,"key")}); } //@ reach=4 b="HMAC without a key, after Reset, short outputs"
// SP 800-185
static void lenc(Bytes&o,uint64_t v){ int n=1; while(n<8&&(v>>(8*n))) n++; o.push_back((uint8_t)n); for(int i=n;i--;) o.push_back((uint8_t)(v>>(8*i))); }
static void renc(Bytes&o,uint64_t v){ int n=1; while(n<8&&(v>>(8*n))) n++; for(int i=n;i--;) o.push_back((uint8_t)(v>>(8*i))); o.push_back((uint8_t)n); }
static void estr(Bytes&o,const Bytes&s){ lenc(o,8*(uint64_t)s.size()); o.insert(o.end(),s.begin(),s.end()); }
static void pad0(Bytes&o,size_t r){ while(o.size()%r) o.push_back(0); }
static Bytes refKmac(size_t r,const MacKey&k,const Bytes&m,size_t len){ Bytes nm=k.info.size()?k.info:Bytes{'K','M','A','C'}; Bytes p; lenc(p,r); estr(p,nm); estr(p,k.iv); pad0(p,r); lenc(p,r); estr(p,k.key); pad0(p,r); p.insert(p.end(),m.begin(),m.end()); renc(p,8*(uint64_t)len); return refKeccak(p.data(),p.size(),r,4,len); }
static const size_t KR[]={168,136,72}; static const size_t KT[]={16,32,64};
#define KM(v) KMAC m(v==0?KmacModes::KMAC128:v==1?KmacModes::KMAC256:KmacModes::KMAC512); size_t r=KR[v]; MacRef ref=[&](const MacKey&k,const Bytes&x,size_t l){ return refKmac(r,k,x,l); }; sym_assert(m.TagSize()==KT[v],"tag size");
static void kmacKey(int v){ KM(v) size_t N[]={16,32,r-5,r-4,r-3,r,2*r+1}; size_t S[]={0,8,r-12,r-10,r-9,r-8,r-7,r}; MacKey k; int w=(int)sym_choose(0,1); k.key=symBytes(w?32:N[sym_choose(0,6)],"key"); k.iv=symBytes(w?S[sym_choose(0,7)]:0,"cust"); macInit(m,k); macOne(m,k,5,0,1,true,ref); sym_reach(1); }
static void kmacInfo(int v){ KM(v) size_t I[]={1,7,r-8,r-7,r-6,r-5,r-4,r-3,r-2,r-1,r}; MacKey k; k.key=symBytes(32,"key"); k.info=symBytes(I[sym_choose(0,10)],"name"); k.iv=symBytes((size_t)sym_choose(0,1)*40,"cust"); macInit(m,k); macOne(m,k,5,0,1,true,ref); sym_reach(1); }
ENTRY c12_kmac256_key(){ kmacKey(1); } //@ reach=1 b="KMAC-256 over any permutation: key and customisation lengths around the rate"
ENTRY c12_kmac256_name(){ kmacInfo(1); } //@ reach=1 b="KMAC-256: name lengths around the rate, with and without customisation"
ENTRY c12_kmac256_len(){ KM(1) macLen(m,{symBytes(32,"key")},r,2,true,ref); } //@ reach=1 b="KMAC-256: messages of q*136+d bytes, q 0..2, d in {0,1,-1,-2,-3,-4,-9,5}"
ENTRY c12_kmac256_cut(){ KM(1) macCut(m,{symBytes(32,"key"),symBytes(8,"cust")},r,true,ref); } //@ reach=2 b="KMAC-256: messages cut in two"
ENTRY c12_kmac256_hist(){ KM(1) macHist(m,{symBytes(32,"key")},{symBytes(16,"old"),symBytes(8,"oc"),symBytes((size_t)sym_choose(0,1)*3,"on")},r,true,ref); } //@ reach=3 b="KMAC-256: histories"
ENTRY c12_kmac128_key(){ kmacKey(0); } //@ reach=1 b="KMAC-128: key and customisation lengths"
ENTRY c12_kmac128_len(){ KM(0) macLen(m,{symBytes(16,"key")},r,1,true,ref); } //@ reach=1 b="KMAC-128: message lengths"
ENTRY c12_kmac512_key(){ kmacKey(2); } //@ reach=1 b="KMAC-512: key and customisation lengths"
ENTRY c12_kmac512_name(){ kmacInfo(2); } //@ reach=1 b="KMAC-512: name lengths"
ENTRY c12_kmac512_len(){ KM(2) macLen(m,{symBytes(64,"key")},r,2,true,ref); } //@ reach=1 b="KMAC-512: message lengths"
ENTRY c12_kmac512_hist(){ KM(2) macHist(m,{symBytes(64,"key")},{symBytes(16,"old"),symBytes(8,"oc")},r,true,ref); } //@ reach=3 b="KMAC-512: histories"
ENTRY c12_kmac_long(){ KM(1) size_t L[]={33,135,136,137,300}; size_t l=L[sym_choose(0,4)]; MacKey k{symBytes(32,"key")}; macInit(m,k); Bytes x=symBytes(7,"m"),o(l); m.Update(x,0,7); m.Finalize(o,0); assertEq(o,ref(k,x,l),"longer outputs are KMAC of that length"); sym_reach(1); } //@ reach=1 b="KMAC-256: outputs of 33 to 300 bytes"
ENTRY c12_kmac_bad(){ int v=(int)sym_choose(0,2); KM(v) (void)r; macBad(m,{symBytes(32,"key")}); } //@ reach=4 b="KMAC without a key, after Reset, short outputs"
// KPA: eight 12 round Keccak lanes, each given its number; the lanes take consecutive blocks; the root absorbs the leaf codes, the output and input lengths
static void k12(uint64_t*S){ sym_uf("keccak12",S,200,S,200); }
static void absorb(uint64_t*S,const uint8_t*p,size_t n){ Bytes b(200); memcpy(b.data(),p,n); for(size_t j=0;j<25;j++){ uint64_t w; memcpy(&w,b.data()+8*j,8); S[j]^=w; } }
static Bytes refKpa(const MacKey&k,const Bytes&m,size_t len){ size_t r=k.key.size()==16?168:k.key.size()==32?136:72,hl=r==136?32:64; uint64_t S[25]={0}; auto str=[&](const Bytes&s){ Bytes p; lenc(p,r); estr(p,s); pad0(p,r); for(size_t i=0;i<p.size();i+=r){ absorb(S,p.data()+i,r); k12(S); } }; if(k.iv.size()) str(k.iv); str(k.key);
  uint64_t L[8][25]; for(uint64_t i=0;i<8;i++){ memcpy(L[i],S,200); L[i][0]^=((i+1)<<48)|0x4B4241AD3132ull; k12(L[i]); }
  Bytes p=m; pad0(p,8*r); for(size_t i=0;i<p.size();i+=8*r) for(int l=0;l<8;l++){ absorb(L[l],p.data()+i+l*r,r); k12(L[l]); }
  Bytes f; for(int l=0;l<8;l++){ const uint8_t*b=(const uint8_t*)L[l]; f.insert(f.end(),b,b+hl); } uint64_t R[25]={0}; size_t i=0; for(;i+r<=f.size();i+=r){ absorb(R,f.data()+i,r); k12(R); } if(i<f.size()){ absorb(R,f.data()+i,f.size()-i); k12(R); }
  Bytes e; renc(e,8*(uint64_t)len); renc(e,8*(uint64_t)m.size()); e.push_back(0x41); pad0(e,r); e[r-1]|=0x80; absorb(R,e.data(),r); Bytes o; while(o.size()<len){ k12(R); const uint8_t*b=(const uint8_t*)R; for(size_t j=0;j<r&&o.size()<len;j++) o.push_back(b[j]); } return o; }
#define KP(v) KPA m(v==0?KpaModes::KPA128:v==1?KpaModes::KPA256:KpaModes::KPA512); size_t r=8*KR[v]; MacRef ref=[&](const MacKey&k,const Bytes&x,size_t l){ return refKpa(k,x,l); }; sym_assert(m.TagSize()==KT[v],"tag size");
static void kpaKey(int v){ KP(v) (void)r; size_t q=KR[v]; size_t S[]={0,8,q-4,q-3,q}; MacKey k; k.key=symBytes(KT[v],"key"); k.iv=symBytes(S[sym_choose(0,4)],"cust"); macInit(m,k); macOne(m,k,5,0,(int)sym_choose(0,2),true,ref); sym_reach(1); }
ENTRY c12_kpa256_key(){ kpaKey(1); } //@ reach=1 b="KPA-256 over any permutation: customisation lengths around the rate"
ENTRY c12_kpa256_len(){ KP(1) macLen(m,{symBytes(32,"key")},r,1,true,ref); } //@ reach=1 b="KPA-256: messages of q*1088+d bytes, q 0..1"
ENTRY c12_kpa256_lane(){ KP(1) MacKey k{symBytes(32,"key")}; macInit(m,k); macOne(m,k,(size_t)sym_choose(0,2)*136+(size_t)sym_choose(0,1)*300,0,1,true,ref); sym_reach(1); } //@ reach=1 b="KPA-256: messages ending at lane boundaries"
ENTRY c12_kpa256_hist(){ KP(1) macHist(m,{symBytes(32,"key")},{symBytes(32,"old"),symBytes(8,"oc")},r,true,ref); } //@ reach=3 b="KPA-256: histories"
ENTRY c12_kpa128(){ KP(0) (void)r; kpaKey(0); } //@ reach=1 b="KPA-128: customisation lengths"
ENTRY c12_kpa512(){ KP(2) (void)r; kpaKey(2); } //@ reach=1 b="KPA-512: customisation lengths"
ENTRY c12_kpa512_len(){ KP(2) macLen(m,{symBytes(64,"key")},r,2,true,ref); } //@ reach=1 b="KPA-512: message lengths, q 0..2"
ENTRY c12_kpa_bad(){ int v=(int)sym_choose(0,2); KP(v) (void)r; macBad(m,{symBytes(32,"key")}); } //@ reach=4 b="KPA without a key, after Reset, short outputs"
