// Independent reference definitions of the permutations (FIPS 180-4, FIPS 202, RFC 7693, Skein 1.3, RFC 8439).
#pragma once
#include "refconst.h"
#include <string.h>
static inline uint32_t rr32(uint32_t x,int n){ n&=31; return n?(x>>n)|(x<<(32-n)):x; }
static inline uint64_t rr64(uint64_t x,int n){ n&=63; return n?(x>>n)|(x<<(64-n)):x; }
static inline uint32_t rl32(uint32_t x,int n){ return rr32(x,32-n); }
static inline uint64_t rl64(uint64_t x,int n){ return rr64(x,64-n); }
static void refSha256P(uint32_t*H,const uint8_t*m){ uint32_t w[64],v[8]; for(int i=0;i<16;i++) w[i]=(uint32_t)m[4*i]<<24|(uint32_t)m[4*i+1]<<16|(uint32_t)m[4*i+2]<<8|m[4*i+3];
  for(int i=16;i<64;i++) w[i]=(rr32(w[i-2],17)^rr32(w[i-2],19)^(w[i-2]>>10))+w[i-7]+(rr32(w[i-15],7)^rr32(w[i-15],18)^(w[i-15]>>3))+w[i-16];
  memcpy(v,H,32); for(int i=0;i<64;i++){ uint32_t a=v[0],e=v[4]; uint32_t t1=v[7]+(rr32(e,6)^rr32(e,11)^rr32(e,25))+((e&v[5])^(~e&v[6]))+REF_K32[i]+w[i]; uint32_t t2=(rr32(a,2)^rr32(a,13)^rr32(a,22))+((a&v[1])^(a&v[2])^(v[1]&v[2])); for(int j=7;j>0;j--) v[j]=v[j-1]; v[4]+=t1; v[0]=t1+t2; }
  for(int i=0;i<8;i++) H[i]+=v[i]; }
static void refSha512P(uint64_t*H,const uint8_t*m){ uint64_t w[80],v[8]; for(int i=0;i<16;i++){ w[i]=0; for(int j=0;j<8;j++) w[i]|=(uint64_t)m[8*i+j]<<(56-8*j); }
  for(int i=16;i<80;i++) w[i]=(rr64(w[i-2],19)^rr64(w[i-2],61)^(w[i-2]>>6))+w[i-7]+(rr64(w[i-15],1)^rr64(w[i-15],8)^(w[i-15]>>7))+w[i-16];
  memcpy(v,H,64); for(int i=0;i<80;i++){ uint64_t a=v[0],e=v[4]; uint64_t t1=v[7]+(rr64(e,14)^rr64(e,18)^rr64(e,41))+((e&v[5])^(~e&v[6]))+REF_K64[i]+w[i]; uint64_t t2=(rr64(a,28)^rr64(a,34)^rr64(a,39))+((a&v[1])^(a&v[2])^(v[1]&v[2])); for(int j=7;j>0;j--) v[j]=v[j-1]; v[4]+=t1; v[0]=t1+t2; }
  for(int i=0;i<8;i++) H[i]+=v[i]; }
static void refKeccakP(uint64_t*A,int rounds){ for(int r=0;r<rounds;r++){ uint64_t C[5],B[25]; for(int x=0;x<5;x++) C[x]=A[x]^A[x+5]^A[x+10]^A[x+15]^A[x+20]; for(int x=0;x<5;x++){ uint64_t D=C[(x+4)%5]^rl64(C[(x+1)%5],1); for(int y=0;y<5;y++) A[x+5*y]^=D; }
  int x=1,y=0; B[0]=A[0]; for(int t=0;t<24;t++){ int ny=(2*x+3*y)%5; B[y+5*ny]=rl64(A[x+5*y],((t+1)*(t+2)/2)%64); x=y; y=ny; }
  for(int j=0;j<5;j++) for(int i=0;i<5;i++) A[i+5*j]=B[i+5*j]^(~B[(i+1)%5+5*j]&B[(i+2)%5+5*j]); A[0]^=REF_RC[r]; } }
static const uint8_t REF_SIG[10][16]={{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15},{14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3},{11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4},{7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8},{9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13},{2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9},{12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11},{13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10},{6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5},{10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0}};
template<class W> static void refBlakeP(W*H,const W*iv,const W*M,int rounds,const int*R){ W v[16]; const int b=8*sizeof(W); for(int i=0;i<8;i++){ v[i]=H[i]; v[8+i]=iv[i]; }
  auto rr=[&](W x,int n){ return (W)((x>>n)|(x<<(b-n))); }; auto G=[&](int p,int q,int r,int s,W x,W y){ v[p]=v[p]+v[q]+x; v[s]=rr(v[s]^v[p],R[0]); v[r]=v[r]+v[s]; v[q]=rr(v[q]^v[r],R[1]); v[p]=v[p]+v[q]+y; v[s]=rr(v[s]^v[p],R[2]); v[r]=v[r]+v[s]; v[q]=rr(v[q]^v[r],R[3]); };
  for(int i=0;i<rounds;i++){ const uint8_t*g=REF_SIG[i%10]; G(0,4,8,12,M[g[0]],M[g[1]]); G(1,5,9,13,M[g[2]],M[g[3]]); G(2,6,10,14,M[g[4]],M[g[5]]); G(3,7,11,15,M[g[6]],M[g[7]]); G(0,5,10,15,M[g[8]],M[g[9]]); G(1,6,11,12,M[g[10]],M[g[11]]); G(2,7,8,13,M[g[12]],M[g[13]]); G(3,4,9,14,M[g[14]],M[g[15]]); }
  for(int i=0;i<8;i++) H[i]^=v[i]^v[8+i]; }
static const int REF_B32[4]={16,12,8,7},REF_B64[4]={32,24,16,63};
static const int TFR4[8][2]={{14,16},{52,57},{23,40},{5,37},{25,33},{46,12},{58,22},{32,32}};
static const int TFR8[8][4]={{46,36,19,37},{33,27,14,42},{17,49,36,39},{44,9,54,56},{39,30,34,24},{13,50,10,17},{25,29,39,43},{8,35,56,22}};
static const int TFR16[8][8]={{24,13,8,47,8,17,22,37},{38,19,10,55,49,18,23,52},{33,4,51,13,34,41,59,17},{5,20,48,41,47,28,16,25},{41,9,37,31,12,47,44,30},{16,34,56,51,4,53,42,41},{31,44,47,46,19,42,44,25},{9,48,35,52,23,31,37,20}};
static const int TFP4[4]={0,3,2,1},TFP8[8]={2,1,4,7,6,5,0,3},TFP16[16]={0,9,2,13,6,11,4,15,10,7,12,3,14,5,8,1};
// The extended round counts (96, 120) end, by this library's definition, with the words of the last subkey of the standard round count.
static void refThreefish(uint64_t*x,const uint64_t*key,const uint64_t*tw,int N,int rounds){ uint64_t k[17],t[3]={tw[0],tw[1],tw[0]^tw[1]},y[16]; k[N]=0x1BD11BDAA9FC1A22ull; for(int i=0;i<N;i++){ k[i]=key[i]; k[N]^=key[i]; } const int*P=N==4?TFP4:N==8?TFP8:TFP16;
  for(int d=0;d<=rounds;d++){ if(d%4==0){ int s=d/4,q=d==rounds?(N==16?20:18):s; for(int i=0;i<N;i++){ x[i]+=k[(q+i)%(N+1)]; if(i==N-3) x[i]+=t[q%3]; if(i==N-2) x[i]+=t[(q+1)%3]; if(i==N-1) x[i]+=(uint64_t)s; } } if(d==rounds) break;
    for(int j=0;j<N/2;j++){ int r=N==4?TFR4[d%8][j]:N==8?TFR8[d%8][j]:TFR16[d%8][j]; uint64_t a=x[2*j]+x[2*j+1]; x[2*j+1]=rl64(x[2*j+1],r)^a; x[2*j]=a; } for(int i=0;i<N;i++) y[i]=x[P[i]]; memcpy(x,y,8*N); } }
static const int REF_C32[8][4]={{16,12,8,7},{16,12,8,7},{16,12,8,7},{16,12,8,7},{16,12,8,7},{16,12,8,7},{16,12,8,7},{16,12,8,7}};
static const int REF_CSX[8][4]={{38,19,10,55},{33,4,51,13},{16,34,56,51},{4,53,42,41},{34,41,59,17},{23,31,37,20},{31,44,47,46},{12,47,44,30}}; // documented in ChaCha.h
template<class W> static void refChaCha(W*o,const W*st,int rounds,const int R[8][4]){ const int b=8*sizeof(W); W x[16]; memcpy(x,st,sizeof x); auto rl=[&](W v,int n){ return (W)((v<<n)|(v>>(b-n))); };
  auto Q=[&](int p,int q,int r,int s,const int*c){ x[p]+=x[q]; x[s]=rl(x[s]^x[p],c[0]); x[r]+=x[s]; x[q]=rl(x[q]^x[r],c[1]); x[p]+=x[q]; x[s]=rl(x[s]^x[p],c[2]); x[r]+=x[s]; x[q]=rl(x[q]^x[r],c[3]); };
  for(int i=0;i<rounds;i+=2){ for(int j=0;j<4;j++) Q(j,4+j,8+j,12+j,R[j]); for(int j=0;j<4;j++) Q(j,4+(j+1)%4,8+(j+2)%4,12+(j+3)%4,R[4+j]); } for(int i=0;i<16;i++) o[i]=x[i]+st[i]; }
