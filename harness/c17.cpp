// C17: arithmetic, packing, compression and sampling of the ring KEM
//@t 90
#include <vector>
#include <iomanip>
#include <sstream>
#include <iostream>
#include <algorithm>
#include <functional>
#include <bitset>
#include <set>
#include <array>
#include <memory>
#include <string>
#include <map>
#include <mutex>
#include <immintrin.h>
#include "sym.h"
#define private public
#define protected public
#include "KyberBase.h"
#undef private
#undef protected
#include "Keccak.h"
using namespace CEX; using CEX::Asymmetric::Encrypt::MLWE::KyberBase;
typedef KyberBase KB; typedef KB::Poly Poly; typedef KB::PolyVec PV;
static const int Q=3329;
static void symPoly(Poly& p,const char* n){ for(int i=0;i<256;++i) sym_bytes(&p.coeffs[i],2,n); } // one variable per coefficient
static void range(const Poly& p,int lo,int hi){ for(int i=0;i<256;++i) sym_assume((p.coeffs[i]>=lo)&(p.coeffs[i]<=hi)); }
static void pollute(Poly& p){ sym_bytes(p.coeffs.data(),512,"previous content"); }
static inline uint32_t canon(int16_t a){ return (uint16_t)(a+((a>>15)&Q)); }
static int16_t mont(int32_t a){ return KB::MontgomeryReduce(a); }
// ---- scalar reductions
// every a with |a| < q*2^15 is u*q + r*2^16 for exactly one 16-bit u and one r with |r| <= q: quantifying over (u,r) is quantifying over a
ENTRY c17_mont() { int16_t u=(int16_t)sym_u64("u"); int16_t r=(int16_t)sym_u64("r"); sym_assume((r>=-Q)&(r<=Q)); int32_t a=(int32_t)u*Q+(int32_t)r*65536; sym_assert(mont(a)==r,"MontgomeryReduce(u*q + r*2^16) is r"); sym_reach(1); } //@ reach=1 t=80 b="every a with |a| < q*2^15, as u*q + r*2^16"
ENTRY c17_barrett() { int16_t a=(int16_t)sym_u64("a"); int k=(int)sym_choose(-10,10); sym_assume((a>=k*Q-1664)&(a<=k*Q+1664)); sym_assert(KB::BarrettReduce(a)==a-k*Q,"BarrettReduce is the centred representative"); sym_reach(1); } //@ reach=1 b="every 16-bit value, one quotient per path"
ENTRY c17_fqmul() { int16_t a=(int16_t)sym_u64("a"),b=(int16_t)sym_u64("b"); sym_assert(KB::FqMul(a,b)==mont((int32_t)a*b),"FqMul is the Montgomery reduction of the product"); sym_reach(1); } //@ reach=1 b="every pair of 16-bit values"
// ---- transforms: FIPS 203 algorithms 9, 10 and 11 with the powers of 17 computed here (Montgomery form, signed), reduction by the real FqMul / BarrettReduce
static uint32_t g_z[128];
static void zetas(){ uint32_t pw[128]; uint32_t x=1; for(int i=0;i<128;++i){ pw[i]=x; x=x*17%Q; } for(int i=0;i<128;++i){ int r=0; for(int b=0;b<7;++b) r|=((i>>b)&1)<<(6-b); g_z[i]=(pw[r]*65536ULL)%Q; } }
static int16_t zs(int k){ int v=(int)g_z[k]; return (int16_t)(v>Q/2?v-Q:v); }
ENTRY c17_ntt() { zetas(); Poly p,r; symPoly(p,"polynomial"); r=p; int k=1; for(int len=128;len>=2;len>>=1) for(int st=0;st<256;st+=2*len){ int16_t z=zs(k++); for(int j=st;j<st+len;++j){ int16_t t=KB::FqMul(z,r.coeffs[j+len]); r.coeffs[j+len]=(int16_t)(r.coeffs[j]-t); r.coeffs[j]=(int16_t)(r.coeffs[j]+t); } }
  Poly q=p; KB::Ntt(q); sym_assert_eq(q.coeffs.data(),r.coeffs.data(),512,"the transform"); for(auto&c:r.coeffs) c=KB::BarrettReduce(c); KB::PolyNttv2(p); sym_assert_eq(p.coeffs.data(),r.coeffs.data(),512,"the reduced transform"); sym_reach(1); } //@ reach=1 b="every polynomial of 256 16-bit coefficients"
ENTRY c17_invntt() { zetas(); Poly p,r; symPoly(p,"polynomial"); r=p; int k=127; for(int len=2;len<=128;len<<=1) for(int st=0;st<256;st+=2*len){ int16_t z=zs(k--); for(int j=st;j<st+len;++j){ int16_t t=r.coeffs[j]; r.coeffs[j]=KB::BarrettReduce((int16_t)(t+r.coeffs[j+len])); r.coeffs[j+len]=KB::FqMul(z,(int16_t)(r.coeffs[j+len]-t)); } }
  int16_t f=(int16_t)(65536ULL*65536ULL%Q*3303%Q); for(auto&c:r.coeffs) c=KB::FqMul(c,f); KB::InvNtt(p); sym_assert_eq(p.coeffs.data(),r.coeffs.data(),512,"the inverse transform"); sym_reach(1); } //@ reach=1 b="every polynomial of 256 16-bit coefficients"
static void refBase(Poly& r,const Poly& a,const Poly& b){ for(int i=0;i<128;++i){ int16_t z=zs(64+i/2); if(i&1) z=(int16_t)-z; const int16_t *x=&a.coeffs[2*i],*y=&b.coeffs[2*i]; r.coeffs[2*i]=(int16_t)(KB::FqMul(KB::FqMul(x[1],y[1]),z)+KB::FqMul(x[0],y[0])); r.coeffs[2*i+1]=(int16_t)(KB::FqMul(x[0],y[1])+KB::FqMul(x[1],y[0])); } }
static void basemulacc(size_t K){ zetas(); PV a,b; a.vec.resize(K); b.vec.resize(K); Poly r,t,o; for(size_t i=0;i<K;++i){ symPoly(a.vec[i],"a"); symPoly(b.vec[i],"b"); } refBase(r,a.vec[0],b.vec[0]); for(size_t i=1;i<K;++i){ refBase(t,a.vec[i],b.vec[i]); for(int j=0;j<256;++j) r.coeffs[j]=(int16_t)(r.coeffs[j]+t.coeffs[j]); } for(auto&c:r.coeffs) c=KB::BarrettReduce(c);
  pollute(o); KB::PolyVecBaseMulAccMontgomery(o,a,b); sym_assert_eq(o.coeffs.data(),r.coeffs.data(),512,"inner product of transformed vectors"); sym_reach(1); }
ENTRY c17_basemul() { basemulacc((size_t)sym_choose(2,5)); } //@ reach=1 b="vectors of 2..5 polynomials, every coefficient"
ENTRY c17_tomont() { Poly p,r; symPoly(p,"polynomial"); r=p; int16_t f=(int16_t)(65536ULL*65536ULL%Q); for(auto&c:r.coeffs) c=mont((int32_t)c*f); KB::PolyToMont(p); sym_assert_eq(p.coeffs.data(),r.coeffs.data(),512,"conversion to Montgomery form"); sym_reach(1); } //@ reach=1 b="every polynomial"
ENTRY c17_addsub() { Poly a,b,s,d; symPoly(a,"a"); symPoly(b,"b"); pollute(s); KB::PolyAdd(s,a,b); KB::PolySub(d,a,b); bool k=true,m=true; for(int i=0;i<256;++i){ k&=s.coeffs[i]==(int16_t)(a.coeffs[i]+b.coeffs[i]); m&=d.coeffs[i]==(int16_t)(a.coeffs[i]-b.coeffs[i]); } sym_assert(k,"PolyAdd"); sym_assert(m,"PolySub"); Poly e=b; KB::PolySub(e,a,e); sym_assert_eq(e.coeffs.data(),d.coeffs.data(),512,"PolySub onto its operand"); e=a; KB::PolyAdd(e,e,b); sym_assert_eq(e.coeffs.data(),s.coeffs.data(),512,"PolyAdd onto its operand");
  PV va,vb,vr; va.vec.resize(2); vb.vec.resize(2); vr.vec.resize(2); va.vec[0]=a; va.vec[1]=b; vb.vec[0]=b; vb.vec[1]=b; KB::PolyVecAdd(vr,va,vb); sym_assert_eq(vr.vec[0].coeffs.data(),s.coeffs.data(),512,"PolyVecAdd"); for(int i=0;i<256;++i) s.coeffs[i]=(int16_t)(2*b.coeffs[i]); sym_assert_eq(vr.vec[1].coeffs.data(),s.coeffs.data(),512,"PolyVecAdd second row"); sym_reach(1); } //@ reach=1 b="every pair of polynomials"
// ---- byte encoding
ENTRY c17_tobytes() { Poly p; symPoly(p,"polynomial"); range(p,-Q+1,Q-1); Bytes r=symBytes(384+5,"previous"); Bytes w=r; KB::PolyToBytes(r,3,p); for(int i=0;i<128;++i){ uint32_t a=canon(p.coeffs[2*i]),b=canon(p.coeffs[2*i+1]); uint32_t v=a|(b<<12); w[3+3*i]=(uint8_t)v; w[4+3*i]=(uint8_t)(v>>8); w[5+3*i]=(uint8_t)(v>>16); } assertEq(r,w,"12-bit encoding of the canonical representatives"); Poly q; pollute(q); KB::PolyFromBytes(q,r,3); bool k=true; for(int i=0;i<256;++i) k&=(uint32_t)q.coeffs[i]==canon(p.coeffs[i]); sym_assert(k,"decoding restores the polynomial"); sym_reach(1); } //@ reach=1 b="every polynomial with coefficients between -q and q"
ENTRY c17_frombytes() { Bytes a=symBytes(384+3,"bytes"); Poly q; KB::PolyFromBytes(q,a,2); bool k=true; for(int i=0;i<128;++i){ uint32_t v=a[2+3*i]|(a[3+3*i]<<8)|(a[4+3*i]<<16); k&=(q.coeffs[2*i]==(int)(v&4095))&(q.coeffs[2*i+1]==(int)(v>>12)); } sym_assert(k,"12-bit decoding"); sym_reach(1); } //@ reach=1 b="every byte string"
ENTRY c17_packkeys() { size_t K=(size_t)sym_choose(2,5); PV p,q; p.vec.resize(K); q.vec.resize(K); for(auto&x:p.vec){ symPoly(x,"poly"); range(x,0,Q-1); } Bytes seed=symBytes(32,"seed"),s2(32),b(384*K+32),c(384*K); KB::PackPk(b,p,seed); KB::UnPackPk(q,s2,b); assertEq(s2,seed,"public seed"); for(size_t i=0;i<K;++i) sym_assert_eq(q.vec[i].coeffs.data(),p.vec[i].coeffs.data(),512,"public key polynomial"); KB::PackSk(c,p); PV z; z.vec.resize(K); KB::UnPackSk(z,c); for(size_t i=0;i<K;++i) sym_assert_eq(z.vec[i].coeffs.data(),p.vec[i].coeffs.data(),512,"secret key polynomial"); sym_reach(1); } //@ reach=1 b="2..5 polynomials with canonical coefficients"
// ---- message encoding
ENTRY c17_msg() { Bytes m=symBytes(32,"message"),o(32); Poly p; pollute(p); KB::PolyFromMsg(p,m); bool k=true; for(int i=0;i<256;++i) k&=p.coeffs[i]==(((m[i/8]>>(i%8))&1)?(Q+1)/2:0); sym_assert(k,"each message bit becomes 0 or (q+1)/2"); KB::PolyToMsg(o,p); assertEq(o,m,"the message is recovered"); sym_reach(1); } //@ reach=1 b="every 32-byte message"
ENTRY c17_tomsg() { Poly p; symPoly(p,"polynomial"); range(p,-1664,1664); Bytes o=symBytes(32,"previous"); KB::PolyToMsg(o,p); bool k=true; for(int i=0;i<256;++i){ uint32_t a=canon(p.coeffs[i]); uint32_t b=(a>=833)&(a<=2496); k&=((uint32_t)((o[i/8]>>(i%8))&1)==b); } sym_assert(k,"a message bit is set exactly for coefficients nearer to q/2 than to 0"); sym_reach(1); } //@ reach=1 b="every polynomial with reduced coefficients"
// ---- compression: round(2^d x / q) mod 2^d and round(q y / 2^d), packed little endian
static uint32_t comp(int16_t c,int d){ return (((canon(c)<<d)+Q/2)/Q)&((1u<<d)-1); }
static uint32_t getbits(const Bytes& a,size_t off,int i,int d){ uint32_t v=0; size_t b=(size_t)i*d; uint32_t w=0; for(int k=0;k<3;++k){ size_t q=off+b/8+k; if(q<a.size()) w|=(uint32_t)a[q]<<(8*k); } v=(w>>(b%8))&((1u<<d)-1); return v; }
static void ctpack(size_t K){ const int du=K>3?11:10,dv=K>3?5:4; PV b; b.vec.resize(K); Poly v; for(auto&x:b.vec){ symPoly(x,"u"); range(x,-1664,1664); } symPoly(v,"v"); range(v,-1664,1664);
  Bytes c=symBytes(32*(du*K+dv),"previous"); KB::PackCiphertext(c,b,v,(uint32_t)K);
  for(size_t i=0;i<K;++i){ bool k=true; for(int j=0;j<256;++j) k&=getbits(c,32*du*i,j,du)==comp(b.vec[i].coeffs[j],du); sym_assert(k,"compressed u is round(2^d u / q) mod 2^d"); }
  bool k=true; for(int j=0;j<256;++j){ uint32_t y=getbits(c,32*du*K,j,dv),a=canon(v.coeffs[j]); y|=(uint32_t)((y==0)&(a>1664))<<dv; k&=((a<<dv)+1664-y*Q)<(uint32_t)Q; } sym_assert(k,"compressed v is round(2^d v / q) mod 2^d"); sym_reach(1); }
ENTRY c17_pack2() { ctpack(2); } //@ reach=1 b="every vector of reduced polynomials"
ENTRY c17_pack3() { ctpack(3); } //@ reach=1 b="every vector of reduced polynomials"
ENTRY c17_pack4() { ctpack(4); } //@ reach=1 b="every vector of reduced polynomials"
ENTRY c17_pack5() { ctpack(5); } //@ reach=1 b="every vector of reduced polynomials"
static Bytes bytewise(size_t n,const char* nm){ Bytes b(n); for(size_t i=0;i<n;++i) sym_bytes(&b[i],1,nm); return b; }
static void ctunpack(size_t K){ const int du=K>3?11:10,dv=K>3?5:4; Bytes c=bytewise(32*(du*K+dv),"ciphertext"); PV b; b.vec.resize(K); Poly v; pollute(v); KB::UnPackCiphertext(b,v,c); for(size_t i=0;i<=K;++i){ int d=i<K?du:dv; Poly& p=i<K?b.vec[i]:v; bool k=true; for(int j=0;j<256;++j) k&=(p.coeffs[j]==(int)((getbits(c,32*du*i,j,d)*Q+(1u<<(d-1)))>>d)); sym_assert(k,"decompressed coefficients"); } sym_reach(1); }
ENTRY c17_unpack2() { ctunpack(2); } //@ reach=1 b="K=2, every ciphertext"
ENTRY c17_unpack3() { ctunpack(3); } //@ reach=1 b="K=3, every ciphertext"
ENTRY c17_unpack4() { ctunpack(4); } //@ reach=1 b="K=4, every ciphertext"
ENTRY c17_unpack5() { ctunpack(5); } //@ reach=1 b="K=5, every ciphertext"
// ---- noise sampling: centred binomial of the output of the extendable output function over seed || nonce
static int cbd(const Bytes& b,int i,int eta){ int a=0,s=0; for(int k=0;k<eta;++k){ size_t x=(size_t)i*2*eta+k,y=x+eta; a+=(b[x/8]>>(x%8))&1; s+=(b[y/8]>>(y%8))&1; } return a-s; }
ENTRY c17_cbd2() { Bytes b=bytewise(128,"buffer"); Poly p,q; pollute(p); pollute(q); KB::PolyCbdEta2(p,b); KB::PolyCbdEta1(q,b,2); bool k=true,m=true; for(int i=0;i<256;++i){ int c=cbd(b,i,2); k&=(p.coeffs[i]==c); m&=(q.coeffs[i]==c); } sym_assert(k,"eta 2 sample"); sym_assert(m,"eta 2 sample through eta1"); sym_reach(1); } //@ reach=1 b="every 128-byte buffer"
ENTRY c17_cbd3() { Bytes b=bytewise(192+8,"buffer"); Poly p; pollute(p); KB::PolyCbdEta1(p,b,3); bool k=true; for(int i=0;i<256;++i) k&=(p.coeffs[i]==cbd(b,i,3)); sym_assert(k,"eta 3 sample"); sym_reach(1); } //@ reach=1 b="every 192-byte buffer (8 spare bytes, as the caller provides)"
// ---- rejection sampling
static uint32_t refRej(Poly& r,uint32_t off,uint32_t len,const Bytes& b,uint32_t bl){ uint32_t n=0; for(uint32_t k=0;k+3<=bl;k+=3){ uint32_t v=b[k]|(b[k+1]<<8)|((uint32_t)b[k+2]<<16); uint32_t x=v&4095,y=v>>12; if(n<len&&x<(uint32_t)Q) r.coeffs[off+n++]=(int16_t)x; if(n<len&&y<(uint32_t)Q) r.coeffs[off+n++]=(int16_t)y; } return n; }
ENTRY c17_rej() { uint32_t off=(uint32_t)sym_choose(250,256),bl=9; Bytes b=symBytes(bl,"buffer"); Poly p,q; pollute(p); q=p; uint32_t n=refRej(q,off,256-off,b,bl); sym_assert(KB::RejUniform(p,off,256-off,b,bl)==n,"number of accepted samples"); sym_assert_eq(p.coeffs.data(),q.coeffs.data(),512,"accepted samples in order, nothing else written"); sym_reach(1); } //@ reach=1 b="9 arbitrary bytes, at the end of the polynomial with 0..6 places left"
ENTRY c17_fqbound() { int16_t z=(int16_t)sym_u64("z"),b=(int16_t)sym_u64("b"); sym_assume((z>=-1664)&(z<=1664)); int32_t r=KB::FqMul(z,b); sym_assert((r>=-2497)&(r<=2497),"a product with a reduced factor has magnitude at most 2497"); sym_reach(1); } //@ reach=1 b="every reduced factor and every 16-bit value"
ENTRY c17_rejavx() { // one symbolic group of 24 bytes at a chosen place; the rest is accepted or rejected by pattern
  static const uint8_t ok[3]={0x01,0x20,0x03}; int pat=(int)sym_choose(0,2); uint32_t g=(uint32_t)sym_choose(0,20)*24; int sub=(int)sym_choose(0,7); Bytes b(512); for(int i=0;i<168;++i){ bool rej=pat==1&&(i%3)==1; for(int k=0;k<3;++k) b[3*i+k]=rej||(pat==2&&(i%2))?0xFF:(uint8_t)(ok[k]+(k==1?0:i%7)); } sym_bytes(&b[g+3*sub],3,"bytes"); Poly p,q; pollute(p); q=p; uint32_t n=refRej(q,0,256,b,504); uint32_t r=KB::RejUniformAvx2(p,b); sym_assert(r==n,"number of accepted samples"); sym_assert_eq(p.coeffs.data(),q.coeffs.data(),2*n,"accepted samples in order"); sym_reach(1); } //@ reach=1 b="three symbolic bytes at every place of the 504, three acceptance patterns"
