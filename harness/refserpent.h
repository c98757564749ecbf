// Serpent: S-box tables and linear transformation of the specification
#pragma once
#include <stdint.h>
static const uint8_t REF_SERPENT[8][16]={{3,8,15,1,10,6,5,11,14,13,4,2,7,0,9,12},{15,12,2,7,9,0,5,10,1,11,14,8,6,13,3,4},{8,6,7,9,3,12,10,15,13,1,14,4,0,11,5,2},{0,15,11,8,12,9,6,3,13,1,2,4,10,7,5,14},{1,15,8,3,12,0,11,6,2,5,4,10,9,14,7,13},{15,5,2,11,4,10,9,12,0,3,14,8,13,6,7,1},{7,2,12,5,8,4,6,11,14,9,1,15,13,3,10,0},{1,13,15,0,14,8,2,11,7,4,12,10,9,3,5,6}};
static inline uint32_t refRotl(uint32_t x,int n){ return (x<<n)|(x>>(32-n)); }
static inline void refLT(uint32_t*x){ x[0]=refRotl(x[0],13); x[2]=refRotl(x[2],3); x[1]=x[1]^x[0]^x[2]; x[3]=x[3]^x[2]^(x[0]<<3); x[1]=refRotl(x[1],1); x[3]=refRotl(x[3],7); x[0]=x[0]^x[1]^x[3]; x[2]=x[2]^x[3]^(x[1]<<7); x[0]=refRotl(x[0],5); x[2]=refRotl(x[2],22); }
