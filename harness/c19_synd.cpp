// C19: Goppa syndromes, with inverses as an arbitrary function (c19_inv)
//@t 100
//@noinline MPKCUtils
#include "sym.h"
#include "MPKCUtils.h"
#include <vector>
#include <cstring>
using CEX::Asymmetric::Encrypt::MPKC::MPKCUtils; typedef uint16_t G;
static G fe(const char*n){ G a; sym_bytes(&a,2,n); return a&0x1FFF; }
static G rmul(G a,G b){ uint32_t r=0; for(int i=12;i>=0;i--){ r<<=1; r^=(0u-(r>>13&1))&0x201B; r^=(0u-(uint32_t)(b>>i&1))&a; } return (G)r; }
namespace CEX { namespace Asymmetric { namespace Encrypt { namespace MPKC {
uint16_t MPKCUtils::GfInv(uint16_t d){ G r; sym_uf("inv",&r,2,&d,2); return r&0x1FFF; }
}}}}
ENTRY c19_synd(){ const int T=2,N=3; G f[T+1],L[N],o[2*T+1]; for(auto&x:f) x=fe("f"); L[0]=1; L[1]=0x1234; L[2]=2; L[sym_choose(0,2)]=0x0B5F; uint8_t r[1]; sym_bytes(r,1,"r"); o[2*T]=77; sym_coarse(32); MPKCUtils::Synd(o,f,L,r,N,T); for(int j=0;j<2*T;j++){ G e=0; for(int i=0;i<N;i++){ G v=MPKCUtils::Eval(f,L[i],T),q=MPKCUtils::GfMultiply(v,v),t; sym_uf("inv",&t,2,&q,2); t&=0x1FFF; for(int k=0;k<j;k++) t=rmul(t,L[i]); e^=(G)((0u-(r[0]>>i&1))&t); } sym_assert(o[j]==e,"syndrome element j sums L^j / f(L)^2 over the set positions"); } sym_assert(o[2*T]==77,"nothing behind"); sym_reach(1); } //@ reach=1 b="degree 2, 3 support elements: all polynomials and received words, three sets of points"
