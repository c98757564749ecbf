// C18: arithmetic, rounding, hints and packing of the ring signature scheme
//@t 60
#include <vector>
#include <iomanip>
#include <sstream>
#include <iostream>
#include <algorithm>
#include <functional>
#include <bitset>
#include <set>
#include <array>
#include <memory>
#include <string>
#include <map>
#include <mutex>
#include <immintrin.h>
#include "sym.h"
#define private public
#define protected public
#include "DLTMPolyMath.h"
#undef private
#undef protected
using namespace CEX; using CEX::Asymmetric::Sign::DLTM::DLTMPolyMath;
typedef DLTMPolyMath DM; typedef std::array<int32_t,256> Arr; struct alignas(32) Poly : Arr {};
static const int32_t Q=8380417; static const int32_t G32=(Q-1)/32,G88=(Q-1)/88;
static void symPoly(Arr& p,const char* n){ for(int i=0;i<256;++i) sym_bytes(&p[i],4,n); } // one variable per coefficient
static void range(const Arr& p,int lo,int hi){ for(int i=0;i<256;++i) sym_assume((p[i]>=lo)&(p[i]<=hi)); }
static void pollute(Arr& p){ sym_bytes(p.data(),1024,"previous content"); }
static int32_t var(const char* n,int lo,int hi){ int32_t v=(int32_t)sym_u64(n); sym_assume((v>=lo)&(v<=hi)); return v; }
static int32_t gam(){ return sym_choose(0,1)?G88:G32; }
// ---- reductions
// every a with |a| < q*2^31 is u*q + r*2^32 for exactly one 32-bit u and one |r| <= q: quantifying over (u,r) is quantifying over a
ENTRY c18_mont() { int32_t u=(int32_t)sym_u64("u"); int32_t r=var("r",-Q,Q); int64_t a=(int64_t)u*Q+((int64_t)r<<32); sym_assert(DM::MontReduce(a)==r,"MontReduce(u*q + r*2^32) is r"); sym_reach(1); } //@ reach=1 b="every product that can occur (|a| < q*2^31)"
static bool red(int32_t a,int32_t r){ int32_t k=(a+(1<<22))>>23; return (r==(int32_t)(a-(uint32_t)k*Q))&(r>=-6283009)&(r<=6283009); }
ENTRY c18_reduce() { Poly p,r; symPoly(p,"polynomial"); range(p,-2147483647-1,2147483647-(1<<22)); r=p; DM::PolyReduce(r); bool k=true; for(int i=0;i<256;++i) k&=red(p[i],r[i]); sym_assert(k,"PolyReduce: congruent and within 6283009"); sym_assert(red(p[7],DM::Reduce32(p[7])),"Reduce32"); sym_reach(1); } //@ reach=1 b="every polynomial with coefficients up to 2^31-2^22-1"
ENTRY c18_caddq() { Poly p,r; symPoly(p,"polynomial"); r=p; DM::PolyCaddQ(r); bool k=true; for(int i=0;i<256;++i) k&=r[i]==(int32_t)((uint32_t)p[i]+((uint32_t)(p[i]>>31)&(uint32_t)Q)); sym_assert(k,"PolyCaddQ adds q to the negative coefficients"); sym_assert(DM::CaddQ(p[3])==(int32_t)((uint32_t)p[3]+((uint32_t)(p[3]>>31)&(uint32_t)Q)),"CaddQ"); sym_reach(1); } //@ reach=1 b="every polynomial"
// ---- rounding
ENTRY c18_p2r() { Poly a,h,l; symPoly(a,"polynomial"); range(a,0,Q-1); pollute(h); pollute(l); DM::PolyPower2Round(h,l,a); bool k=true; for(int i=0;i<256;++i) k&=((h[i]<<13)+l[i]==a[i])&(l[i]>-4096)&(l[i]<=4096)&(h[i]>=0)&(h[i]<1024); sym_assert(k,"a = 2^13 a1 + a0 with a0 in (-2^12, 2^12]"); int32_t l0,h0=DM::Power2Round(a[9],l0); sym_assert((h0==h[9])&(l0==l[9]),"Power2Round"); sym_reach(1); } //@ reach=1 b="every polynomial over [0,q)"
static bool dec(int32_t a,int32_t h,int32_t l,int32_t g){ int32_t m=g==G32?16:44; bool wrap=a>Q-1-g; return (wrap&(h==0)&(l==a-Q))|((!wrap)&(h>=0)&(h<m)&(h*(2*g)+l==a)&(l>-g)&(l<=g)); }
static void decompose(int32_t g){ Poly a,h,l; symPoly(a,"polynomial"); range(a,0,Q-1); pollute(h); pollute(l); DM::PolyDecompose(h,l,a,g); bool k=true; for(int i=0;i<256;++i) k&=dec(a[i],h[i],l[i],g); sym_assert(k,"a = 2*gamma2*a1 + a0 with a0 centred, the top value wrapping to 0"); int32_t l0=0,h0=DM::Decompose(l0,a[9],g); sym_assert(dec(a[9],h0,l0,g),"scalar Decompose"); sym_reach(1); }
ENTRY c18_dec32() { decompose(G32); } //@ reach=1 b="gamma2 = (q-1)/32, every polynomial over [0,q)"
ENTRY c18_dec88() { decompose(G88); } //@ reach=1 b="gamma2 = (q-1)/88, same"
// ---- hints
static bool mk(int32_t a0,int32_t a1,int32_t g){ return !((a0<=g)|(a0>Q-g)|((a0==Q-g)&(a1==0))); }
ENTRY c18_makehint() { int32_t g=gam(); Poly l,h,o; symPoly(l,"low"); symPoly(h,"high"); range(l,-2*Q,2*Q); pollute(o); uint32_t n=DM::PolyMakeHint(o,l,h,g); bool k=true; uint32_t c=0; for(int i=0;i<256;++i){ k&=o[i]==(int32_t)mk(l[i],h[i],g); } sym_assert(k,"hint bits"); sym_assert(DM::MakeHint(l[5],h[5],g)==(int32_t)mk(l[5],h[5],g),"MakeHint"); sym_reach(1); } //@ reach=1 b="every pair of polynomials, both gamma2"
ENTRY c18_hintcount() { int32_t g=gam(); Poly l,h,o; for(int i=0;i<256;++i){ l[i]=(i%3)?i:g+1+i; h[i]=i%16; } for(int i=0;i<8;++i){ l[31*i+3]=var("low",0,Q-1); h[31*i+3]=var("high",0,15); } uint32_t n=DM::PolyMakeHint(o,l,h,g); uint32_t c=0; for(int i=0;i<256;++i) c+=mk(l[i],h[i],g); sym_assert(n==c,"number of hints"); sym_reach(1); } //@ reach=1 b="8 arbitrary coefficients among 256, both gamma2"
static int32_t use(int32_t a1,int32_t a0,int32_t h,int32_t g){ int32_t m=g==G32?16:44; int32_t d=(-(int32_t)(a0>0)&2)-1; int32_t v=a1+(d&-(int32_t)(h!=0)); v+=m&-(int32_t)(v<0); v-=m&-(int32_t)(v>=m); return v; }
static void usehint(int32_t g){ Poly a,h,b,l,r; symPoly(a,"polynomial"); range(a,0,Q-1); symPoly(h,"hint"); range(h,0,1); pollute(b); DM::PolyDecompose(r,l,a,g); DM::PolyUseHint(b,a,h,g); bool k=true; for(int i=0;i<256;++i) k&=b[i]==use(r[i],l[i],h[i],g); sym_assert(k,"the high bits are moved by the hint in the direction of the low bits"); int32_t l0=0,h0=DM::Decompose(l0,a[9],g); sym_assert((int32_t)DM::UseHint(a[9],h[9],g)==use(h0,l0,h[9],g),"scalar UseHint"); sym_reach(1); }
ENTRY c18_use32() { usehint(G32); } //@ reach=1 b="gamma2 = (q-1)/32, every polynomial over [0,q) and every hint"
ENTRY c18_use88() { usehint(G88); } //@ reach=1 b="gamma2 = (q-1)/88, same"
// a signature with high bits w1 and low bits w0 (|w0| < gamma2 once the norm check passed), shifted by z (|z| < gamma2): the hint recovers w1 from the shifted value
static void recover(int32_t g){ int32_t m=g==G32?16:44; int32_t w1=(int32_t)sym_choose(0,m-1); int32_t w0=var("w0",-g+1,g-1),z=var("z",-g+1,g-1); int32_t l=DM::CaddQ(w0+z); int32_t h=DM::MakeHint(l,w1,g); int32_t v=w1*(2*g)+w0+z; v+=v<0?Q:0; v-=v>=Q?Q:0; sym_assert((int32_t)DM::UseHint(v,h,g)==w1,"using the hint recovers the high bits"); sym_reach(1); }
ENTRY c18_recover32() { recover(G32); } //@ reach=1 b="gamma2 = (q-1)/32: every high part, every |w0| and |z| below gamma2"
ENTRY c18_recover88() { recover(G88); } //@ reach=1 b="gamma2 = (q-1)/88: same"
ENTRY c18_chknorm() { Poly p; for(int i=0;i<256;++i) p[i]=(i%2)?i-128:0; int n=(int)sym_choose(0,31)*8; for(int j=0;j<8;++j) p[n+j]=var("coefficient",-Q,Q); uint32_t b=(uint32_t)var("bound",129,Q); bool any=b>(uint32_t)(Q-1)/8; for(int j=0;j<8;++j) any|=(uint32_t)(p[n+j]<0?-p[n+j]:p[n+j])>=b; sym_assert((DM::PolyChkNorm(p,b)!=0)==any,"the norm check fails exactly when a coefficient reaches the bound"); sym_reach(1); } //@ reach=1 b="every group of 8 coefficients within |q|, every bound above 128"
ENTRY c18_addsub() { Poly a,b,s,d,t; symPoly(a,"a"); symPoly(b,"b"); pollute(s); pollute(d); t=a; DM::PolyAdd(s,a,b); DM::PolySub(d,a,b); DM::PolyShiftL(t); bool k=true; for(int i=0;i<256;++i) k&=((uint32_t)s[i]==(uint32_t)a[i]+(uint32_t)b[i])&((uint32_t)d[i]==(uint32_t)a[i]-(uint32_t)b[i])&((uint32_t)t[i]==(uint32_t)a[i]<<13); sym_assert(k,"sum, difference and shift"); Poly e=b; DM::PolySub(e,a,e); sym_assert_eq(e.data(),d.data(),1024,"difference onto the second operand"); e=a; DM::PolyAdd(e,e,b); sym_assert_eq(e.data(),s.data(),1024,"sum onto the first operand"); sym_reach(1); } //@ reach=1 b="every pair of polynomials"
// ---- transforms: powers of 1753 in Montgomery form in bit-reversed order, reduction by the real MontReduce
static int32_t g_z[256];
static void zetas(){ uint64_t pw[256],x=1; for(int i=0;i<256;++i){ pw[i]=x; x=x*1753%Q; } for(int i=0;i<256;++i){ int r=0; for(int b=0;b<8;++b) r|=((i>>b)&1)<<(7-b); int64_t v=(int64_t)((pw[r]<<32)%Q); g_z[i]=(int32_t)(v>Q/2?v-Q:v); } }
static int32_t mul(int32_t a,int32_t b){ return DM::MontReduce((int64_t)a*b); }
ENTRY c18_ntt() { zetas(); Poly p,r; symPoly(p,"polynomial"); r=p; int k=0; for(int len=128;len>0;len>>=1) for(int st=0;st<256;st+=2*len){ int32_t z=g_z[++k]; for(int j=st;j<st+len;++j){ int32_t t=mul(z,r[j+len]); r[j+len]=r[j]-t; r[j]=r[j]+t; } } DM::PolyNtt(p); sym_assert_eq(p.data(),r.data(),1024,"the transform"); sym_reach(1); } //@ reach=1 b="every polynomial"
ENTRY c18_invntt() { zetas(); Poly p,r; symPoly(p,"polynomial"); r=p; int k=256; for(int len=1;len<256;len<<=1) for(int st=0;st<256;st+=2*len){ int32_t z=-g_z[--k]; for(int j=st;j<st+len;++j){ int32_t t=r[j]; r[j]=t+r[j+len]; r[j+len]=mul(z,t-r[j+len]); } } uint64_t m=(1ULL<<32)%Q; uint64_t inv=1,e=Q-2,bs=256; while(e){ if(e&1) inv=inv*bs%Q; bs=bs*bs%Q; e>>=1; } int32_t f=(int32_t)(m*m%Q*inv%Q); for(auto&c:r) c=mul(f,c); DM::PolyInvNttMont(p); sym_assert_eq(p.data(),r.data(),1024,"the inverse transform"); sym_reach(1); } //@ reach=1 b="every polynomial"
ENTRY c18_pointwise() { Poly a,b,c,r; symPoly(a,"a"); symPoly(b,"b"); pollute(c); for(int i=0;i<256;++i) r[i]=mul(a[i],b[i]); DM::PolyPointwiseMont(c,a,b); sym_assert_eq(c.data(),r.data(),1024,"pointwise product"); DM::PolyPointwiseInvMont(c,a,b); sym_assert_eq(c.data(),r.data(),1024,"pointwise product, second form"); sym_reach(1); } //@ reach=1 b="every pair of polynomials"
ENTRY c18_matvec() { size_t L=(size_t)sym_choose(1,3); std::vector<Arr> u(L),v(L); Poly w,r; for(size_t i=0;i<L;++i){ symPoly(u[i],"u"); symPoly(v[i],"v"); } for(int j=0;j<256;++j){ uint32_t s=0; for(size_t i=0;i<L;++i) s+=(uint32_t)mul(u[i][j],v[i][j]); r[j]=(int32_t)s; } pollute(w); DM::PolyVecMatrixPointwiseMont(w,u,v); sym_assert_eq(w.data(),r.data(),1024,"inner product of transformed vectors"); sym_reach(1); } //@ reach=1 b="vectors of 1..3 polynomials"
// ---- packing: every coefficient is a field of d bits, little endian
static uint32_t getbits(const Bytes& a,size_t off,int i,int d){ size_t b=(size_t)i*d; uint32_t w=0; for(int k=0;k<4;++k){ size_t q=off+b/8+k; if(q<a.size()) w|=(uint32_t)a[q]<<(8*k); } return (w>>(b%8))&((1u<<d)-1); }
static Bytes bytewise(size_t n,const char* nm){ Bytes b(n); for(size_t i=0;i<n;++i) sym_bytes(&b[i],1,nm); return b; }
enum { T1,T0,ETA2,ETA4,Z17,Z19,W6,W4 }; static const int BITS[]={10,13,3,4,18,20,6,4}; static const int BASE[]={0,4096,2,4,1<<17,1<<19,0,0};
static void packOne(int f,Bytes& r,size_t o,const Arr& p){ switch(f){ case T1: DM::PolyT1Pack(r,o,p); break; case T0: DM::PolyT0Pack(r,o,p); break; case ETA2: DM::PolyEtaPack(r,o,p,2); break; case ETA4: DM::PolyEtaPack(r,o,p,4); break; case Z17: DM::PolyZPack(r,o,p,1<<17); break; case Z19: DM::PolyZPack(r,o,p,1<<19); break; case W6: DM::PolyW1Pack(r,o,p,G88); break; default: DM::PolyW1Pack(r,o,p,G32); } }
static void unpackOne(int f,Arr& p,const Bytes& r,size_t o){ switch(f){ case T1: DM::PolyT1Unpack(p,r,o); break; case T0: DM::PolyT0Unpack(p,r,o); break; case ETA2: DM::PolyEtaUnpack(p,r,o,2); break; case ETA4: DM::PolyEtaUnpack(p,r,o,4); break; case Z17: DM::PolyZUnpack(p,r,o,1<<17); break; default: DM::PolyZUnpack(p,r,o,1<<19); } }
static void pk(int f){ const int d=BITS[f]; Poly p,q; symPoly(p,"polynomial"); int32_t lo=0,hi=(1<<d)-1; if(BASE[f]){ lo=BASE[f]-(f==ETA2?4:f==ETA4?8:hi); hi=BASE[f]; } range(p,lo,hi); Bytes r=symBytes(32*d+3+4,"previous"),w=r; packOne(f,r,3,p); bool k=true; for(int i=0;i<256;++i) k&=getbits(r,3,i,d)==(uint32_t)(BASE[f]?BASE[f]-p[i]:p[i]); sym_assert(k,"each coefficient is its field of the packed bytes"); k=true; for(int i=0;i<3;++i) k&=r[i]==w[i]; for(int i=0;i<4;++i) k&=r[32*d+3+i]==w[32*d+3+i]; sym_assert(k,"nothing else is written"); if(f<W6){ pollute(q); unpackOne(f,q,r,3); k=true; for(int i=0;i<256;++i) k&=q[i]==p[i]; sym_assert(k,"unpacking restores the polynomial"); } sym_reach(1); }
static void upk(int f){ const int d=BITS[f]; Bytes a=bytewise(32*d+5,"bytes"); Poly q; pollute(q); unpackOne(f,q,a,5); bool k=true; for(int i=0;i<256;++i){ int32_t v=(int32_t)getbits(a,5,i,d); k&=q[i]==(BASE[f]?BASE[f]-v:v); } sym_assert(k,"each coefficient is read from its field"); sym_reach(1); }
ENTRY c18_packt1() { pk(T1); } //@ reach=1 b="every polynomial in range"
ENTRY c18_packt0() { pk(T0); } //@ reach=1 b="every polynomial in range"
ENTRY c18_packeta() { pk(ETA2+(int)sym_choose(0,1)); } //@ reach=1 b="every polynomial in range, eta 2 and 4"
ENTRY c18_packz17() { pk(Z17); } //@ reach=1 b="every polynomial in range"
ENTRY c18_packz19() { pk(Z19); } //@ reach=1 b="every polynomial in range"
ENTRY c18_packw1() { pk(W6+(int)sym_choose(0,1)); } //@ reach=1 b="every polynomial in range, both gamma2"
ENTRY c18_unpack() { upk((int)sym_choose(0,5)); } //@ reach=1 b="every byte string, six formats"
// ---- containers
ENTRY c18_pk() { size_t K=(size_t)sym_choose(1,2); Bytes rho=symBytes(32,"rho"),r2(32),b=symBytes(32+320*K,"previous"); std::vector<Arr> t(K),u(K); for(auto&x:t){ symPoly(x,"t1"); range(x,0,1023); } DM::PackPk(b,rho,t,320); bool k=true; for(size_t j=0;j<K;++j) for(int i=0;i<256;++i) k&=getbits(b,32+320*j,i,10)==(uint32_t)t[j][i]; sym_assert(k,"public key layout"); DM::UnpackPk(r2,u,b,320); assertEq(r2,rho,"rho"); for(size_t j=0;j<K;++j){ bool m=true; for(int i=0;i<256;++i) m&=u[j][i]==t[j][i]; sym_assert(m,"t1 restored"); } sym_reach(1); } //@ reach=1 b="1 and 2 polynomials"
ENTRY c18_sk() { int eta=sym_choose(0,1)?4:2; uint32_t pe=eta==2?96:128; size_t K=2,L=(size_t)sym_choose(1,2); Bytes rho=symBytes(32,"rho"),key=symBytes(32,"key"),tr=symBytes(48,"tr"),r2(32),k2(32),t2(48),b=symBytes(112+(K+L)*pe+K*416,"previous"); std::vector<Arr> s1(L),s2(K),t0(K),u1(L),u2(K),v0(K); auto z=[&](std::vector<Arr>& v,int lo,int hi,const char* n){ for(auto&x:v){ symPoly(x,n); range(x,lo,hi); } }; z(s1,-eta,eta,"s1"); z(s2,-eta,eta,"s2"); z(t0,-4095,4096,"t0"); DM::PackSk(b,rho,key,tr,s1,s2,t0,eta,pe,416); DM::UnpackSk(r2,t2,k2,v0,u1,u2,b,eta,pe,416); assertEq(r2,rho,"rho"); assertEq(k2,key,"key"); assertEq(t2,tr,"tr"); auto e=[&](std::vector<Arr>& a,std::vector<Arr>& c,const char* m){ for(size_t j=0;j<a.size();++j){ bool k=true; for(int i=0;i<256;++i) k&=a[j][i]==c[j][i]; sym_assert(k,m); } }; e(u1,s1,"s1 restored"); e(u2,s2,"s2 restored"); e(v0,t0,"t0 restored"); sym_reach(1); } //@ reach=1 b="2+1 and 2+2 secret polynomials, eta 2 and 4"
ENTRY c18_sig() { size_t K=2,L=1; uint32_t om=6; Bytes c=symBytes(32,"c"),c2(32),b=symBytes(32+576*L+om+K,"previous"); std::vector<Arr> z(L),y(L),h(K),g(K); for(auto&x:z){ symPoly(x,"z"); range(x,-(1<<17)+1,1<<17); } for(auto&x:h) x.fill(0); static const int at[5]={0,100,255,0,254}; for(int i=0;i<5;++i) h[i<3?0:1][at[i]]=(int32_t)sym_choose(0,1); for(auto&x:g) pollute(x); DM::PackSig(b,c,z,h,(uint32_t)K,om,576,1<<17); sym_assert(DM::UnpackSig(c2,y,g,b,576,1<<17,om)==0,"a packed signature is well formed"); assertEq(c2,c,"challenge"); bool k=true; for(int i=0;i<256;++i) k&=y[0][i]==z[0][i]; sym_assert(k,"z restored"); k=true; for(size_t j=0;j<K;++j) for(int i=0;i<256;++i) k&=g[j][i]==h[j][i]; sym_assert(k,"hints restored"); sym_reach(1); } //@ reach=1 b="five hint places, every set of hints"
ENTRY c18_sigcanon() { size_t K=2,L=1; uint32_t om=3; Bytes b(32+576*L+om+K); for(size_t i=0;i<om+K;++i) sym_bytes(&b[32+576*L+i],1,"hint bytes"); for(size_t i=0;i<K;++i) sym_assume(b[32+576*L+om+i]<8); Bytes c(32),w=b; std::vector<Arr> z(L),h(K); for(auto&x:h) pollute(x); bool ok=DM::UnpackSig(c,z,h,b,576,1<<17,om)==0; const uint8_t* p=&b[32+576*L]; uint32_t e0=p[om],e1=p[om+1]; bool good=(e0<=om)&(e1<=om)&(e1>=e0); for(uint32_t i=0;i<om;++i){ bool first=(i==0)|((i==e0)&(e1>e0)); if(i>0) good&=!((i<e1)&!(i==e0))|(p[i]>p[i-1]); good&=(i<e1)|(p[i]==0); (void)first; } sym_assert(ok==good,"exactly the canonical hint encodings are accepted"); if(ok){ sym_reach(1); bool k=true; for(uint32_t i=0;i<om;++i) if(i<e1){ k&=h[i<e0?0:1][p[i]]==1; } sym_assert(k,"the listed hints are set"); } else sym_reach(2); } //@ reach=1,2 b="two polynomials, three hint places, end marks below 8"
// ---- sampling
static size_t refRej(Arr& r,size_t off,size_t len,const Bytes& b,size_t bl){ size_t n=0; for(size_t k=0;k+3<=bl;k+=3){ uint32_t v=(b[k]|(b[k+1]<<8)|((uint32_t)b[k+2]<<16))&0x7FFFFF; if(n<len&&v<(uint32_t)Q) r[off+n++]=(int32_t)v; } return n; }
ENTRY c18_rej() { size_t off=(size_t)sym_choose(252,256),bl=12+(size_t)sym_choose(0,2); Bytes b=symBytes(bl,"buffer"); Poly p,q; pollute(p); q=p; size_t n=refRej(q,off,256-off,b,bl); sym_assert(DM::RejUniform(p,off,256-off,b,bl)==n,"number of accepted samples"); sym_assert_eq(p.data(),q.data(),1024,"accepted samples in order, nothing else written"); sym_reach(1); } //@ reach=1 b="4 arbitrary samples at the end of the polynomial with 0..4 places left"
ENTRY c18_rejavx() { int pat=(int)sym_choose(0,2); size_t s=(size_t)sym_choose(0,279); sym_assume(pat==1||s%8==5); Bytes b(864); for(int i=0;i<280;++i){ bool rej=(pat==1&&(i%9)==1)||(pat==2&&(i%4)==3); b[3*i]=rej?0xFF:(uint8_t)(i*7); b[3*i+1]=rej?0xFF:(uint8_t)(i*3); b[3*i+2]=rej?0xFF:(uint8_t)(i&1?0x80|i%64:i%64); } sym_bytes(&b[3*s],3,"sample"); Poly p,q; pollute(p); q=p; size_t n=refRej(q,0,256,b,840); size_t r=DM::RejUniformAvx2(p,0,256,b,840); sym_assert(r==n,"number of accepted samples"); sym_assert_eq(p.data(),q.data(),4*n,"accepted samples in order"); sym_reach(1); } //@ reach=1 b="one arbitrary sample at every place (sparser for two of the three acceptance patterns) of the 840 bytes"
static size_t refEta(Arr& r,size_t off,size_t len,const Bytes& b,size_t bl,int eta){ size_t n=0; for(size_t k=0;k<bl;++k) for(int j=0;j<2;++j){ uint32_t t=j?b[k]>>4:b[k]&15; if(n<len&&t<(eta==2?15u:9u)) r[off+n++]=eta==2?2-(int)(t%5):4-(int)t; } return n; }
ENTRY c18_rejeta() { size_t off=(size_t)sym_choose(251,256); int eta=sym_choose(0,1)?4:2; Bytes b=bytewise(2,"buffer"); Poly p,q; pollute(p); q=p; size_t n=refEta(q,off,256-off,b,2,eta); sym_assert(DM::RejEta(p,off,256-off,b,2,eta)==n,"number of accepted samples"); sym_assert_eq(p.data(),q.data(),1024,"accepted samples in order from the given place, nothing else written"); sym_reach(1); } //@ reach=1 b="2 arbitrary bytes at the end of the polynomial with 0..5 places left, eta 2 and 4"
