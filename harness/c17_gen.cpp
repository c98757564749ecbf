// C17: matrix generation over an arbitrary permutation
//@t 60
//@noinline KyberBase
#include <immintrin.h>
#include "dig.h"
#define private public
#define protected public
#include "KyberBase.h"
#undef private
#undef protected
using CEX::Asymmetric::Encrypt::MLWE::KyberBase; typedef KyberBase KB; typedef KB::Poly Poly; typedef KB::PolyVec PV;
typedef std::array<__m256i,25> KLanes4;
namespace CEX { namespace Digest { template<> void Keccak::PermuteR24P4x1600H<KLanes4>(KLanes4&S,size_t R){ for(int l=0;l<4;l++){ uint64_t t[25]; for(int i=0;i<25;i++) memcpy(&t[i],(uint8_t*)&S[i]+8*l,8); sym_uf(kecName((int)R),t,200,t,200); for(int i=0;i<25;i++) memcpy((uint8_t*)&S[i]+8*l,&t[i],8); } } } }
// the rejection samplers as arbitrary functions of the bytes they are given (decided in c17.cpp); the first call may leave the polynomial unfinished
static int g_short;
NAMESPACE_KYBER
uint32_t KyberBase::RejUniformAvx2(Poly&R,const std::vector<uint8_t>&B){ sym_uf("rejection",R.coeffs.data(),512,B.data(),504); return g_short-- ==0?250:256; }
uint32_t KyberBase::RejUniform(Poly&R,uint32_t off,uint32_t len,const std::vector<uint8_t>&B,uint32_t bl){ sym_assert(off+len==256&&off>=250&&bl==168,"the unfinished part of the polynomial"); sym_uf("rejection next block",&R.coeffs[off],2*len,B.data(),168); return off==250?3:len; }
NAMESPACE_KYBEREND
static void gen(size_t K){ Bytes seed=symBytes(64,"seed"); int tr=(int)sym_choose(0,1),which=(int)sym_choose(-1,(int)(K*K)-1); g_short=which; std::vector<PV> a(K); for(auto&v:a) v.vec.resize(K); KB::GenMatrix(a,seed,tr,(uint32_t)K);
  for(size_t i=0;i<K;++i) for(size_t j=0;j<K;++j){ Bytes x(seed.begin(),seed.begin()+32); x.push_back((uint8_t)(tr?i:j)); x.push_back((uint8_t)(tr?j:i)); bool sh=(int)(i*K+j)==which; Bytes o=refKeccak(x.data(),34,168,0x1F,sh?840:504); Poly r; sym_uf("rejection",r.coeffs.data(),512,o.data(),504); if(sh){ sym_uf("rejection next block",&r.coeffs[250],12,o.data()+504,168); sym_uf("rejection next block",&r.coeffs[253],6,o.data()+672,168); } sym_assert_eq(a[i].vec[j].coeffs.data(),r.coeffs.data(),512,"matrix entry is sampled from the output for its row and column"); } sym_reach(1); }
ENTRY c17_gen2() { gen(2); } //@ reach=1 b="K=2, both orders, every seed; each entry in turn needing two further blocks"
ENTRY c17_gen3() { gen(3); } //@ reach=1 b="K=3, same"
ENTRY c17_gen4() { gen(4); } //@ reach=1 b="K=4, same"
ENTRY c17_gen5() { gen(5); } //@ reach=1 b="K=5, same"
ENTRY c17_noise() { Bytes seed=symBytes(64,"seed"); size_t off=(size_t)sym_choose(0,1)*32; uint8_t nonce=(uint8_t)sym_u64("nonce"); int eta=(int)sym_choose(2,3); Bytes x(seed.begin()+off,seed.begin()+off+32); x.push_back(nonce); Bytes o=refKeccak(x.data(),33,136,0x1F,64*eta); o.resize(64*eta+8); Poly r,p; if(eta==2) KB::Cbd2(r,o); else KB::Cbd3(r,o); KB::PolyGetNoiseEta1(p,seed,off,nonce,eta); sym_assert_eq(p.coeffs.data(),r.coeffs.data(),512,"noise is sampled from the output for seed and nonce"); if(eta==2){ Poly q; KB::PolyGetNoiseEta2(q,seed,off,nonce); sym_assert_eq(q.coeffs.data(),r.coeffs.data(),512,"second noise"); } sym_reach(1); } //@ reach=1 b="every seed and nonce, eta 2 and 3, over an arbitrary permutation"
