// C25: the GHASH product
//@t 60
#include "sym.h"
#include "CMUL.h"
#include <cstring>
using CEX::Numeric::CMUL;
// SP 800-38D 6.3: Z = X * Y in GF(2^128), bits in the reflected order
static void refMul(const uint8_t*y,uint8_t*x){ uint64_t v0=0,v1=0,z0=0,z1=0; for(int i=0;i<8;i++){ v0=v0<<8|y[i]; v1=v1<<8|y[8+i]; } for(int i=0;i<128;i++){ uint64_t b=0-(uint64_t)((x[i/8]>>(7-i%8))&1); z0^=v0&b; z1^=v1&b; uint64_t l=0-(v1&1); v1=v1>>1|v0<<63; v0=v0>>1^(l&0xE100000000000000ULL); } for(int i=0;i<8;i++){ x[i]=(uint8_t)(z0>>(56-8*i)); x[8+i]=(uint8_t)(z1>>(56-8*i)); } }
template<class F> static void prod(F f){ sym_coarse(32); std::array<uint64_t,2> st,s0; std::array<uint8_t,16> o; uint8_t y[16],x[16]; sym_bytes(st.data(),16,"h"); sym_bytes(o.data(),16,"x"); s0=st; memcpy(x,o.data(),16); for(int i=0;i<16;i++) y[i]=(uint8_t)(st[i/8]>>(56-8*(i%8))); refMul(y,x); f(st,o); sym_assert_eq(o.data(),x,16,"the product in GF(2^128)"); sym_assert(st==s0,"the hash key is unchanged"); sym_reach(1); }
ENTRY c25_u(){ prod([](auto&s,auto&o){ CMUL::PermuteR128P128U(s,o); }); } //@ reach=1 b="the unrolled product equals SP 800-38D's for every pair of 128-bit values"
ENTRY c25_c(){ prod([](auto&s,auto&o){ CMUL::PermuteR128P128C(s,o); }); } //@ reach=1 b="the compact product, every pair"
ENTRY c25_v(){ prod([](auto&s,auto&o){ CMUL::PermuteR128P128V(s,o); }); } //@ reach=1 b="the carry-less multiplication product, every pair"
