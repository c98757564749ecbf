// The GF(2^128) product of GHASH as an arbitrary function of (H,X); replaces CMUL::Permute* (whose exactness is property C25).
#pragma once
#include "modes.h"
#include "CMUL.h"
typedef std::array<uint64_t,CEX::Numeric::CMUL::CMUL_STATE_SIZE> GH; typedef std::array<uint8_t,CEX::Numeric::CMUL::CMUL_BLOCK_SIZE> GB;
static inline void gmul(const uint8_t h[16],uint8_t x[16]){ uint8_t t[32];  memcpy(t,h,16); memcpy(t+16,x,16); sym_uf("gm",x,16,t,32); }
static void gstub(GH&S,GB&O){ uint8_t h[16]; for(int i=0;i<16;++i) h[i]=(uint8_t)(S[i/8]>>(56-8*(i%8))); gmul(h,O.data()); }
namespace CEX { namespace Numeric {
void CMUL::PermuteR128P128U(GH&S,GB&O){ gstub(S,O); } void CMUL::PermuteR128P128C(GH&S,GB&O){ gstub(S,O); } void CMUL::PermuteR128P128V(GH&S,GB&O){ gstub(S,O); }
}}
static void refGhash(const uint8_t*h,const Bytes&a,const Bytes&c,uint8_t y[16]){
  memset(y,0,16); for(const Bytes*b:{&a,&c}) for(size_t i=0;i<b->size();i+=16){ for(size_t j=0;j<16&&i+j<b->size();++j) y[j]^=(*b)[i+j]; gmul(h,y); }
  uint64_t la=8*(uint64_t)a.size(),lc=8*(uint64_t)c.size(); for(int j=0;j<8;++j){ y[j]^=(uint8_t)(la>>(56-8*j)); y[8+j]^=(uint8_t)(lc>>(56-8*j)); } gmul(h,y);
}
// SP 800-38D pre-counter block
static void refJ0(const Bytes&key,const Bytes&nonce,uint8_t h[16],uint8_t j0[16]){ uint8_t z[16]={0}; prpE(key,z,h); if(nonce.size()==12){ memcpy(j0,nonce.data(),12); j0[12]=j0[13]=j0[14]=0; j0[15]=1; } else refGhash(h,Bytes(),nonce,j0); }
static void refCtr(const Bytes&key,const uint8_t j0[16],const Bytes&in,Bytes&out){ uint8_t c[16],t[16]; memcpy(c,j0,16); out.resize(in.size());
  for(size_t i=0;i<in.size();i+=16){ for(int k=15,cc=1;k>=12;--k){ unsigned s=c[k]+cc; c[k]=(uint8_t)s; cc=s>>8; } prpE(key,c,t); for(size_t j=0;j<16&&i+j<in.size();++j) out[i+j]=in[i+j]^t[j]; } }
static void refTag(const Bytes&key,const uint8_t*h,const uint8_t*j0,const Bytes&aad,const Bytes&ct,uint8_t tag[16]){ uint8_t e[16]; refGhash(h,aad,ct,tag); prpE(key,j0,e); for(int i=0;i<16;++i) tag[i]^=e[i]; }
