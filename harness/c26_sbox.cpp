// C26: the Serpent S-boxes, their inverses and the linear transformation, scalar and SIMD, for all words
//@t 120
#include "sym.h"
#include "UInt256.h"
#include "Serpent.h"
#include "refserpent.h"
#include <cstring>
using namespace CEX; using namespace CEX::Cipher::Block::SerpentBase; using CEX::Numeric::UInt256;
typedef uint32_t W; template<class T> using F4=void(*)(T&,T&,T&,T&);
// the definition: bit j of the four words is one nibble, least significant bit in the first word
static W bitOf(W x,int j){ return (x>>j)&1; }
static void refS(const uint8_t*t,const W*in,W*out){ for(int k=0;k<4;k++) out[k]=0; for(int j=0;j<32;j++){ unsigned n=bitOf(in[0],j)|(bitOf(in[1],j)<<1)|(bitOf(in[2],j)<<2)|(bitOf(in[3],j)<<3); uint8_t y=t[n]; for(int k=0;k<4;k++) out[k]|=(W)((y>>k)&1)<<j; } }
static void box(int i,F4<W> s,F4<W> b){ W x[4]; sym_bytes(x,16,"x"); W y[4],e[4]; memcpy(y,x,16); s(y[0],y[1],y[2],y[3]); refS(REF_SERPENT[i],x,e); sym_assert_eq(y,e,16,"the S-box is its table");
  uint8_t inv[16]; for(int k=0;k<16;k++) inv[REF_SERPENT[i][k]]=k; W z[4]; memcpy(z,x,16); b(z[0],z[1],z[2],z[3]); refS(inv,x,e); sym_assert_eq(z,e,16,"the inverse S-box is the inverse table"); sym_reach(1); }
static void boxW(F4<W> s,F4<W> b,F4<UInt256> sw,F4<UInt256> bw){ W x[4][8]; sym_bytes(x,128,"x"); for(int dir=0;dir<2;dir++){ UInt256 r[4]; for(int k=0;k<4;k++) memcpy(&r[k],x[k],32); (dir?bw:sw)(r[0],r[1],r[2],r[3]);
  W e[4][8]; memcpy(e,x,128); for(int j=0;j<8;j++) (dir?b:s)(e[0][j],e[1][j],e[2][j],e[3][j]); for(int k=0;k<4;k++) sym_assert_eq(&r[k],e[k],32,dir?"the 8 lane inverse S-box is the scalar one":"the 8 lane S-box is the scalar one"); } sym_reach(1); }
ENTRY c26_serpent_b0(){ box(0,Sb0<W>,Ib0<W>); boxW(Sb0<W>,Ib0<W>,Sb0<UInt256>,Ib0<UInt256>); } //@ reach=1 b="Serpent S-box 0 and its inverse, scalar and 8 lanes: all words"
ENTRY c26_serpent_b1(){ box(1,Sb1<W>,Ib1<W>); boxW(Sb1<W>,Ib1<W>,Sb1<UInt256>,Ib1<UInt256>); } //@ reach=1 b="Serpent S-box 1 and its inverse, scalar and 8 lanes: all words"
ENTRY c26_serpent_b2(){ box(2,Sb2<W>,Ib2<W>); boxW(Sb2<W>,Ib2<W>,Sb2<UInt256>,Ib2<UInt256>); } //@ reach=1 b="Serpent S-box 2 and its inverse, scalar and 8 lanes: all words"
ENTRY c26_serpent_b3(){ box(3,Sb3<W>,Ib3<W>); boxW(Sb3<W>,Ib3<W>,Sb3<UInt256>,Ib3<UInt256>); } //@ reach=1 b="Serpent S-box 3 and its inverse, scalar and 8 lanes: all words"
ENTRY c26_serpent_b4(){ box(4,Sb4<W>,Ib4<W>); boxW(Sb4<W>,Ib4<W>,Sb4<UInt256>,Ib4<UInt256>); } //@ reach=1 b="Serpent S-box 4 and its inverse, scalar and 8 lanes: all words"
ENTRY c26_serpent_b5(){ box(5,Sb5<W>,Ib5<W>); boxW(Sb5<W>,Ib5<W>,Sb5<UInt256>,Ib5<UInt256>); } //@ reach=1 b="Serpent S-box 5 and its inverse, scalar and 8 lanes: all words"
ENTRY c26_serpent_b6(){ box(6,Sb6<W>,Ib6<W>); boxW(Sb6<W>,Ib6<W>,Sb6<UInt256>,Ib6<UInt256>); } //@ reach=1 b="Serpent S-box 6 and its inverse, scalar and 8 lanes: all words"
ENTRY c26_serpent_b7(){ box(7,Sb7<W>,Ib7<W>); boxW(Sb7<W>,Ib7<W>,Sb7<UInt256>,Ib7<UInt256>); } //@ reach=1 b="Serpent S-box 7 and its inverse, scalar and 8 lanes: all words"
ENTRY c26_serpent_lt(){ sym_coarse(1); W x[4]; sym_bytes(x,16,"x"); W y[4],e[4]; memcpy(y,x,16); memcpy(e,x,16); LinearTransform(y[0],y[1],y[2],y[3]); refLT(e); sym_assert_eq(y,e,16,"the linear transformation is the definition's"); InverseTransform(y[0],y[1],y[2],y[3]); sym_assert_eq(y,x,16,"the inverse transformation undoes it");  W l[4][8]; sym_bytes(l,128,"l"); UInt256 r[4]; for(int k=0;k<4;k++) memcpy(&r[k],l[k],32); LinearTransformW(r[0],r[1],r[2],r[3]); W f[4][8]; for(int j=0;j<8;j++){ W t[4]={l[0][j],l[1][j],l[2][j],l[3][j]}; refLT(t); for(int k=0;k<4;k++) f[k][j]=t[k]; } for(int k=0;k<4;k++) sym_assert_eq(&r[k],f[k],32,"8 lanes"); InverseTransformW(r[0],r[1],r[2],r[3]); for(int k=0;k<4;k++) sym_assert_eq(&r[k],l[k],32,"8 lanes, inverse"); sym_reach(1); } //@ reach=1 b="Serpent linear transformation and its inverse, scalar and 8 lanes: all words"
