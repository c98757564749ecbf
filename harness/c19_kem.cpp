// C19: polynomial products, syndromes, error vectors and the decoder's acceptance decision of the four McEliece parameter sets
//@t 100
#include "sym.h"
#include <vector>
#include <memory>
#include <string>
#include <cstring>
#include <map>
#include <array>
#include <algorithm>
#include "IPrng.h"
#define private public
#include "MPKCN4608T96.h"
#include "MPKCN6688T128.h"
#include "MPKCN6960T119.h"
#include "MPKCN8192T128.h"
#undef private
#include "MPKCUtils.h"
using namespace CEX::Asymmetric::Encrypt::MPKC; typedef uint16_t G; typedef std::vector<uint8_t> Bytes;
static G fe(const char*n){ G a; sym_bytes(&a,2,n); return a&0x1FFF; }
struct P4608 { typedef MPKCN4608T96 C; static const int N=4608,T=96; static std::vector<int> red(){ return {10,9,6,0}; } };
struct P6688 { typedef MPKCN6688T128 C; static const int N=6688,T=128; static std::vector<int> red(){ return {7,2,1,0}; } };
struct P6960 { typedef MPKCN6960T119 C; static const int N=6960,T=119; static std::vector<int> red(){ return {8,0}; } };
struct P8192 { typedef MPKCN8192T128 C; static const int N=8192,T=128; static std::vector<int> red(){ return {7,2,1,0}; } };
// an arbitrary polynomial times a monomial at each of a few positions: with the products bilinear in their operands this is the whole product
template<class P> static void pmul(std::vector<int> pos){ sym_coarse(32); int k=pos[sym_choose(0,pos.size()-1)]; bool sw=sym_choose(0,1); G a[P::T],m[P::T]={0},o[P::T+1],c=fe("c"); for(auto&x:a) x=fe("a"); m[k]=c; o[P::T]=77; if(sw) P::C::GfMul(o,m,a); else P::C::GfMul(o,a,m);
  std::vector<G> r(2*P::T,0); for(int i=0;i<P::T;i++) r[i+k]=MPKCUtils::GfMultiply(a[i],c); for(int i=2*P::T-1;i>=P::T;i--) for(int d:P::red()) r[i-P::T+d]^=r[i]; for(int i=0;i<P::T;i++) sym_assert(o[i]==r[i],"a polynomial times a monomial, reduced"); sym_assert(o[P::T]==77,"nothing behind the result"); sym_reach(1); }
// the syndrome: S = [I | Pk] E with one arbitrary row of Pk, the others zero
template<class P> static void synd(std::vector<int> rows){ const int R=13*P::T,RB=(P::N-R+7)/8,SB=(R+7)/8; int r=rows[sym_choose(0,rows.size()-1)]; Bytes pk((size_t)R*RB,0),e(P::N/8),s(SB+1,0xEE); sym_bytes(pk.data()+(size_t)r*RB,RB,"row"); if((P::N-R)%8) pk[(size_t)r*RB+RB-1]&=(uint8_t)((1<<((P::N-R)%8))-1); sym_bytes(e.data(),e.size(),"e");
  P::C::Syndrome(s.data(),pk.data(),e.data()); uint8_t b=(uint8_t)(e[r/8]>>(r%8)&1); for(int j=0;j<P::N-R;j++){ int q=R+j; b^=(uint8_t)(pk[(size_t)r*RB+j/8]>>(j%8)&e[q/8]>>(q%8)&1); }
  sym_coarse(32); for(int i=0;i<R;i++) sym_assert((s[i/8]>>(i%8)&1)==(i==r?b:(e[i/8]>>(i%8)&1)),"each syndrome bit is the product of its row"); if(R%8) sym_assert(s[SB-1]>>(R%8)==0,"the padding bits are zero"); sym_assert(s[SB]==0xEE,"nothing behind the syndrome"); sym_reach(1); }
// error vectors: candidates with arbitrary values at three places
using CEX::SecureVector;
struct Rng:CEX::Prng::IPrng { std::vector<Bytes> q; size_t c=0; const CEX::Enumeration::Prngs Enumeral() override { return (CEX::Enumeration::Prngs)0; } const std::string Name() override { return std::string("r"); }
  void Generate(Bytes&o,size_t f,size_t l) override { for(size_t i=0;i<l;i++) o[f+i]=q[c][i]; c++; } void Generate(SecureVector<uint8_t>&,size_t,size_t) override {} void Generate(Bytes&o) override { Generate(o,0,o.size()); } void Generate(SecureVector<uint8_t>&) override {}
  uint16_t NextUInt16() override { return 0; } uint32_t NextUInt32() override { return 0; } uint64_t NextUInt64() override { return 0; } void Reset() override {} };
static void put(Bytes&b,int i,G v){ b[2*i]=(uint8_t)v; b[2*i+1]=(uint8_t)(v>>8); }
template<class P> static void gene(bool many){ Rng*g=new Rng; std::unique_ptr<CEX::Prng::IPrng> rp(g); int M=many?2*P::T:P::T; 
  auto fill=[&](int shift,int dup){ Bytes b(2*M); int k=0; for(int i=0;i<M;i++){ G v=(G)(((i*37+shift)%8192)|(i%3<<13)); if(many&&i%5==4) v=(G)(P::N+(i%(8192-P::N))); put(b,i,v); } if(dup>=0){ b[2*dup]=b[0]; b[2*dup+1]=b[1]; } return b; };
  g->q.push_back(fill(5,11)); if(many){ Bytes b(2*M,0xFF); for(int i=0;i<P::T-1;i++) put(b,i,(G)(i*3)); g->q.push_back(b); } // a repetition; too few candidates in range
  Bytes b=fill(9,-1); int at[2]={7,P::T-1-(many?P::T/5:0)}; G x[2]; for(int i=0;i<2;i++){ sym_bytes(&x[i],2,"x"); put(b,at[i],x[i]); x[i]&=0x1FFF; sym_assume(x[i]<P::N); for(int j=0;j<i;j++) sym_assume(x[i]!=x[j]); }
  std::vector<G> ind; for(int i=0;i<M&&(int)ind.size()<P::T;i++){ G v=(G)((b[2*i]|b[2*i+1]<<8)&0x1FFF); bool isx=false; for(int k=0;k<2;k++) isx|=at[k]==i; if(isx){ ind.push_back(v); continue; } if(v<P::N){ ind.push_back(v); for(int k=0;k<2;k++) sym_assume(x[k]!=v); } }
  g->q.push_back(b); Bytes e(P::N/8+1,0xEE); P::C::GenE(e.data(),rp); sym_assert(g->c==g->q.size(),"repeated or missing positions draw again, good ones do not"); 
  Bytes k(P::N/8,0); for(size_t i=0;i<ind.size();i++){ bool isx=false; for(int q=0;q<2;q++) isx|=sym_is_symbolic(&ind[i],2); if(!isx) k[ind[i]/8]|=(uint8_t)(1<<(ind[i]%8)); }
  for(int i=0;i<P::N/8;i++){ uint8_t w=k[i]; for(int q=0;q<2;q++) w|=(uint8_t)((x[q]>>3)==i?1<<(x[q]&7):0); sym_assert(e[i]==w,"a bit is set exactly where a position was drawn"); }
  sym_assert(e[P::N/8]==0xEE,"nothing behind the vector"); sym_reach(1); }
ENTRY c19_4608_pmul(){ pmul<P4608>({0,1,48,95}); } //@ reach=1 b="N=4608: an arbitrary polynomial times c*x^k, k in 0,1,48,95, both operand orders"
ENTRY c19_4608_pmulall(){ std::vector<int> v; for(int i=0;i<96;i++) v.push_back(i); pmul<P4608>(v); } //@ reach=1 tier=thorough t=700 b="N=4608: every monomial"
ENTRY c19_4608_synd(){ synd<P4608>({0,9,1247}); } //@ reach=1 b="N=4608: every error vector, rows 0, 9 and 1247 of the public key arbitrary, the others zero"
ENTRY c19_4608_gene(){ gene<P4608>(true); } //@ reach=1 b="N=4608: two arbitrary distinct positions among 96, after a draw with a repetition and one with too few candidates"
ENTRY c19_6688_pmul(){ pmul<P6688>({0,1,64,127}); } //@ reach=1 b="N=6688: an arbitrary polynomial times c*x^k, k in 0,1,64,127, both operand orders"
ENTRY c19_6688_pmulall(){ std::vector<int> v; for(int i=0;i<128;i++) v.push_back(i); pmul<P6688>(v); } //@ reach=1 tier=thorough t=700 b="N=6688: every monomial"
ENTRY c19_6688_synd(){ synd<P6688>({0,9,1663}); } //@ reach=1 b="N=6688: every error vector, rows 0, 9 and 1663 of the public key arbitrary, the others zero"
ENTRY c19_6688_gene(){ gene<P6688>(true); } //@ reach=1 b="N=6688: two arbitrary distinct positions among 128, after a draw with a repetition and one with too few candidates"
ENTRY c19_6960_pmul(){ pmul<P6960>({0,1,59,118}); } //@ reach=1 b="N=6960: an arbitrary polynomial times c*x^k, k in 0,1,59,118, both operand orders"
ENTRY c19_6960_pmulall(){ std::vector<int> v; for(int i=0;i<119;i++) v.push_back(i); pmul<P6960>(v); } //@ reach=1 tier=thorough t=700 b="N=6960: every monomial"
ENTRY c19_6960_synd(){ synd<P6960>({0,9,1546}); } //@ reach=1 b="N=6960: every error vector, rows 0, 9 and 1546 of the public key arbitrary, the others zero"
ENTRY c19_6960_gene(){ gene<P6960>(true); } //@ reach=1 b="N=6960: two arbitrary distinct positions among 119, after a draw with a repetition and one with too few candidates"
ENTRY c19_8192_pmul(){ pmul<P8192>({0,1,64,127}); } //@ reach=1 b="N=8192: an arbitrary polynomial times c*x^k, k in 0,1,64,127, both operand orders"
ENTRY c19_8192_pmulall(){ std::vector<int> v; for(int i=0;i<128;i++) v.push_back(i); pmul<P8192>(v); } //@ reach=1 tier=thorough t=700 b="N=8192: every monomial"
ENTRY c19_8192_synd(){ synd<P8192>({0,9,1663}); } //@ reach=1 b="N=8192: every error vector, rows 0, 9 and 1663 of the public key arbitrary, the others zero"
ENTRY c19_8192_gene(){ gene<P8192>(false); } //@ reach=1 b="N=8192: two arbitrary distinct positions among 128, after a draw with a repetition"
