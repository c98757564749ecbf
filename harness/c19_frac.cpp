// C19: quotients, with the squarings as arbitrary functions and products exact; and the routines built on quotients
//@t 100
//@noinline MPKCUtils
#include "sym.h"
#include "MPKCUtils.h"
#include <vector>
#include <cstring>
using CEX::Asymmetric::Encrypt::MPKC::MPKCUtils; typedef uint16_t G;
static G fe(const char*n){ G a; sym_bytes(&a,2,n); return a&0x1FFF; }
static G rmul(G a,G b){ uint32_t r=0; for(int i=12;i>=0;i--){ r<<=1; r^=(0u-(r>>13&1))&0x201B; r^=(0u-(uint32_t)(b>>i&1))&a; } return (G)r; }
static G uf(const char*n,G a){ G r; sym_uf(n,&r,2,&a,2); return r&0x1FFF; }
namespace CEX { namespace Asymmetric { namespace Encrypt { namespace MPKC { // their exactness is decided by c19_sq
uint16_t MPKCUtils::GfSqMul(uint16_t a,uint16_t m){ return rmul(uf("sq",a),m); } uint16_t MPKCUtils::GfSq2(uint16_t a){ return uf("q4",a); } uint16_t MPKCUtils::GfSq2Mul(uint16_t a,uint16_t m){ return rmul(uf("q4",a),m); } 
}}}}
ENTRY c19_frac(){ sym_coarse(32); G a=fe("a"),n=fe("n"); sym_assert(MPKCUtils::GfFrac(a,n)==rmul(MPKCUtils::GfInv(a),n),"a fraction is the inverse times the numerator"); sym_reach(1); } //@ reach=1 b="every numerator and denominator"
