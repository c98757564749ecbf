// C18: expansion of seeds over an arbitrary permutation
//@t 60
//@noinline DLTMPolyMath
#include <immintrin.h>
#include "dig.h"
#define private public
#define protected public
#include "DLTMPolyMath.h"
#undef private
#undef protected
using CEX::Asymmetric::Sign::DLTM::DLTMPolyMath; typedef DLTMPolyMath DM; typedef std::array<int32_t,256> Arr; struct alignas(32) Poly : Arr {};
typedef std::vector<__m256i> KVec4;
namespace CEX { namespace Digest { template<> void Keccak::PermuteR24P4x1600H<KVec4>(KVec4&S,size_t R){ for(int l=0;l<4;l++){ uint64_t t[25]; for(int i=0;i<25;i++) memcpy(&t[i],(uint8_t*)&S[i]+8*l,8); sym_uf(kecName((int)R),t,200,t,200); for(int i=0;i<25;i++) memcpy((uint8_t*)&S[i]+8*l,&t[i],8); } } } }
// the rejection samplers as arbitrary functions of the bytes they are given (decided in c18.cpp); the first call for a chosen polynomial leaves it unfinished
static int g_short;
NAMESPACE_DILITHIUM
size_t DLTMPolyMath::RejUniformAvx2(Arr&R,size_t off,size_t len,const std::vector<uint8_t>&B,size_t bl){ sym_assert(off==0&&bl==840&&B.size()>=848,"the first call fills the polynomial from the squeezed bytes"); sym_uf("uniform",R.data(),1024,B.data(),840); return g_short-- ==0?250:256; }
size_t DLTMPolyMath::RejUniform(Arr&R,size_t off,size_t len,const std::vector<uint8_t>&B,size_t bl){ if(off==0){ sym_assert(len==256&&bl==840,"first call"); sym_uf("uniform",R.data(),1024,B.data(),840); return g_short-- ==0?250:256; } sym_assert(off+len==256&&off>=250&&bl==168,"the unfinished part of the polynomial"); if(len) sym_uf("uniform next block",&R[off],4*len,B.data(),168); return off==250?3:len; }
size_t DLTMPolyMath::RejEta(Arr&R,size_t off,size_t len,const std::vector<uint8_t>&B,size_t bl,uint32_t eta){ if(off==0){ sym_assert(len==256&&bl==(eta==2?168u:336u),"first call"); sym_uf(eta==2?"eta2":"eta4",R.data(),1024,B.data(),bl); return g_short-- ==0?250:256; } sym_assert(off+len==256&&bl==168,"the unfinished part of the polynomial"); if(len) sym_uf("eta next block",&R[off],4*len,B.data(),168); return off==250?3:len; }
NAMESPACE_DILITHIUMEND
static Bytes seeded(const Bytes& s,uint32_t nonce){ Bytes x=s; x.push_back((uint8_t)nonce); x.push_back((uint8_t)(nonce>>8)); return x; }
static void refUniform(Arr& r,const Bytes& rho,uint32_t nonce,bool sh){ Bytes x=seeded(rho,nonce),o=refKeccak(x.data(),x.size(),168,0x1F,sh?840+336:840); sym_uf("uniform",r.data(),1024,o.data(),840); if(sh){ sym_uf("uniform next block",&r[250],24,o.data()+840,168); sym_uf("uniform next block",&r[253],12,o.data()+1008,168); } }
static void refEta(Arr& r,const Bytes& s,uint32_t nonce,int eta,bool sh){ size_t n=eta==2?168:336; Bytes x=seeded(s,nonce),o=refKeccak(x.data(),x.size(),168,0x1F,n+(sh?336:0)); sym_uf(eta==2?"eta2":"eta4",r.data(),1024,o.data(),n); if(sh){ sym_uf("eta next block",&r[250],24,o.data()+n,168); sym_uf("eta next block",&r[253],12,o.data()+n+168,168); } }
static void matrix(size_t K,size_t L,int how){ Bytes rho=symBytes(32,"rho"); int which=(int)sym_choose(0,K*L)-1; g_short=which; std::vector<std::vector<Arr>> a(K,std::vector<Arr>(L)); if(how==0) DM::PolyVecMatrixExpandAvx2(a,rho,(uint32_t)K,(uint32_t)L); else if(how==1) for(size_t i=0;i<K;++i) DM::PolyVecMatrixExpandRow(a,rho,(uint32_t)K,(uint32_t)L,i); else DM::ExpandMat(a,rho);
  for(size_t i=0;i<K;++i) for(size_t j=0;j<L;++j){ Arr r; refUniform(r,rho,(uint32_t)(256*i+j),how!=1&&(int)(i*L+j)==which); if(how!=1||which<0) sym_assert_eq(a[i][j].data(),r.data(),1024,"matrix entry is sampled from the output for its row and column"); } sym_reach(1); }
ENTRY c18_mat44() { matrix(4,4,0); } //@ reach=1 b="4x4, every seed; each entry in turn needing two further blocks"
ENTRY c18_mat65() { matrix(6,5,0); } //@ reach=1 b="6x5, same"
ENTRY c18_mat87() { matrix(8,7,0); } //@ reach=1 b="8x7, same"
ENTRY c18_rows() { static const int d[3][2]={{4,4},{6,5},{8,7}}; int k=(int)sym_choose(0,2); Bytes rho=symBytes(32,"rho"); g_short=-1; size_t K=d[k][0],L=d[k][1]; std::vector<std::vector<Arr>> a(K,std::vector<Arr>(L)); for(size_t i=0;i<K;++i) DM::PolyVecMatrixExpandRow(a,rho,(uint32_t)K,(uint32_t)L,i); for(size_t i=0;i<K;++i) for(size_t j=0;j<L;++j){ Arr r; refUniform(r,rho,(uint32_t)(256*i+j),false); sym_assert_eq(a[i][j].data(),r.data(),1024,"row expansion"); } sym_reach(1); } //@ reach=1 b="three parameter sets, every seed"
ENTRY c18_matseq() { matrix(4,4,2); } //@ reach=1 b="sequential form 4x4, same"
ENTRY c18_eta4x() { Bytes s=symBytes(32,"seed"); int eta=sym_choose(0,1)?4:2; int which=(int)sym_choose(0,4)-1; g_short=which; uint16_t n[4]; for(auto&x:n) x=(uint16_t)sym_u64("nonce"); Poly a[4]; DM::PolyUniformEta4x(a[0],a[1],a[2],a[3],s,n[0],n[1],n[2],n[3],eta==2?1:2,eta); for(int k=0;k<4;++k){ Arr r; refEta(r,s,n[k],eta,k==which); sym_assert_eq(a[k].data(),r.data(),1024,"secret polynomial is sampled from the output for its nonce"); } sym_reach(1); } //@ reach=1 b="every 32-byte seed and four nonces, eta 2 and 4, each lane in turn needing two further blocks"
ENTRY c18_eta1() { size_t sl=sym_choose(0,1)?48:32; Bytes s=symBytes(sl,"seed"); int eta=sym_choose(0,1)?4:2; bool sh=sym_choose(0,1)!=0; g_short=sh?0:-1; uint16_t n=(uint16_t)sym_u64("nonce"); Arr a,r; DM::PolyUniformEta(a,s,n,eta,eta==2?1:2); refEta(r,s,n,eta,sh); sym_assert_eq(a.data(),r.data(),1024,"sequential form"); sym_reach(1); } //@ reach=1 b="every seed of 32 and 48 bytes, every nonce, eta 2 and 4"
ENTRY c18_gamma() { Bytes s=symBytes(48,"seed"); uint32_t g=sym_choose(0,1)?1u<<19:1u<<17; uint16_t n[4]; for(auto&x:n) x=(uint16_t)sym_u64("nonce"); Poly a[4]; DM::PolyUniformGamma1x4(a[0],a[1],a[2],a[3],s,n[0],n[1],n[2],n[3],g); for(int k=0;k<4;++k){ Bytes x=seeded(s,n[k]),o=refKeccak(x.data(),50,136,0x1F,680); Arr r; DM::PolyZUnpack(r,o,0,g); sym_assert_eq(a[k].data(),r.data(),1024,"masking polynomial is read from the output for its nonce"); if(k==0){ Arr t; DM::PolyUniformGamma1M1(t,s,n[0],g); sym_assert_eq(t.data(),r.data(),1024,"sequential form"); } } sym_reach(1); } //@ reach=1 b="every 48-byte seed and four nonces, both gamma1"
ENTRY c18_challenge() { Bytes s=symBytes(32,"seed"); Bytes o=refKeccak(s.data(),32,136,0x1F,136); for(int k=10;k<136;++k) sym_assume(o[k]<=253); uint32_t tau=(uint32_t)sym_choose(1,2); Arr c,r; sym_bytes(c.data(),1024,"previous content"); DM::PolyChallenge(c,s,tau); r.fill(0); size_t pos=8; uint64_t sg=0; memcpy(&sg,o.data(),8); for(uint32_t i=256-tau;i<256;++i){ uint32_t b; do b=o[pos++]; while(b>i); r[i]=r[b]; r[b]=(sg&1)?-1:1; sg>>=1; } sym_assert_eq(c.data(),r.data(),1024,"the challenge is the specified shuffle"); sym_reach(1); } //@ reach=1 b="every seed, 1 and 2 nonzero coefficients, at most two rejected bytes"
