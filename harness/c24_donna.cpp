// C24: the 128-bit integer used for products
//@t 60
#include "sym.h"
#include "Donna128.h"
typedef unsigned __int128 u128; typedef CEX::Numeric::Donna128 D;
static u128 dv(const D&x){ return (u128)x.High()<<64|x.Low(); }
static D dsym(){ uint64_t l=0,h=0; sym_bytes(&l,8,"l"); sym_bytes(&h,8,"h"); return D(l,h); }
ENTRY c24_donna(){ D x=dsym(),y=dsym(); uint64_t u; sym_bytes(&u,8,"u"); u128 a=dv(x),b=dv(y); sym_assert(dv(x+y)==a+b,"+"); sym_assert(dv(x+u)==a+u,"+ word"); D z=x; z+=y; sym_assert(dv(z)==a+b,"+="); z=x; z+=u; sym_assert(dv(z)==a+u,"+= word"); sym_assert((x&u)==(uint64_t)(a&u),"&"); sym_assert(dv(x|y)==(a|b),"|"); for(size_t s:{0,1,13,31,32,38,42,44,51,63}){ sym_assert(dv(x>>s)==a>>s,">>"); sym_assert(dv(x<<s)==a<<s,"<<"); } sym_reach(1); } //@ reach=1 b="Donna128: add, or, and, shifts (0,1,13,31,32,38,42,44,51,63) are 128-bit arithmetic, all operands"
ENTRY c24_donna_mul(){ uint64_t x,y; sym_bytes(&x,8,"x"); sym_bytes(&y,8,"y"); uint64_t a=(uint32_t)x,b=x>>32,c=(uint32_t)y,d=y>>32; u128 e=(u128)(a*c)+((u128)(a*d)<<32)+((u128)(b*c)<<32)+((u128)(b*d)<<64); sym_assert(dv(D(x)*y)==e||dv(D(x)*y)==(u128)x*y,"* is the full product") /* two forms of the same value */; sym_reach(1); } //@ reach=1 b="Donna128: the product of two words, all operands"
