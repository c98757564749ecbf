// FIPS-197 over byte tables (generated here, so that a symbolic byte is one table lookup)
#pragma once
#include <stdint.h>
#include <string.h>
#include "aestab.h"
static inline void refAesKey(const uint8_t*k,size_t kn,uint8_t rk[15][16]){ size_t nk=kn/4,nr=nk+6; uint8_t w[60][4]; for(size_t i=0;i<nk;i++) memcpy(w[i],k+4*i,4); uint8_t rc=1;
  for(size_t i=nk;i<4*(nr+1);i++){ uint8_t t[4]; memcpy(t,w[i-1],4); if(i%nk==0){ uint8_t u=t[0]; t[0]=(uint8_t)(AES_S[t[1]]^rc); t[1]=AES_S[t[2]]; t[2]=AES_S[t[3]]; t[3]=AES_S[u]; rc=(uint8_t)((rc<<1)^((rc>>7)*0x1b)); } else if(nk>6&&i%nk==4) for(int j=0;j<4;j++) t[j]=AES_S[t[j]]; for(int j=0;j<4;j++) w[i][j]=w[i-nk][j]^t[j]; }
  for(size_t i=0;i<=nr;i++) memcpy(rk[i],w[4*i],16); }
static inline void refAesEnc(const uint8_t (*rk)[16],int nr,const uint8_t*in,uint8_t*out){ uint8_t s[16],t[16]; for(int i=0;i<16;i++) s[i]=in[i]^rk[0][i];
  for(int r=1;r<=nr;r++){ for(int c=0;c<4;c++) for(int q=0;q<4;q++) t[c*4+q]=AES_S[s[((c+q)%4)*4+q]]; if(r<nr) for(int c=0;c<4;c++) for(int q=0;q<4;q++) s[c*4+q]=AES_M2[t[c*4+q]]^AES_M3[t[c*4+(q+1)%4]]^t[c*4+(q+2)%4]^t[c*4+(q+3)%4]; else memcpy(s,t,16); for(int i=0;i<16;i++) s[i]^=rk[r][i]; } memcpy(out,s,16); }
