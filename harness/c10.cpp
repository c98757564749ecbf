// C10: digests equal their definitions (the compression functions themselves: c10_perm.cpp)
//@t 60
#include "dig.h"
static void def(DK k){ size_t r=DI_[k].rate; int d[]={0,1,-17,-16,-9,-8,-2,-1}; int c=(int)sym_choose(0,7),m=(int)sym_choose(0,2); size_t n=(size_t)((int)(m*r)+d[c]); if(d[c]<0&&m==0) n=(size_t)(d[c]+(int)(3*r));
  IDigest*g=makeDigest(k,false); Bytes in=symBytes(n,"msg"),out=symBytes(DI_[k].out+3,"junk"),e=out,in0=in; bool comp=sym_choose(0,1)!=0; Bytes x=refDigest(k,in.data(),n); 
  if(comp){ Bytes o(DI_[k].out); g->Compute(in,o); assertEq(o,x,"Compute gives the definition's value"); } else { g->Update(in,0,n); g->Finalize(out,2); memcpy(e.data()+2,x.data(),x.size()); assertEq(out,e,"the digest is the definition's and nothing else is written"); } assertEq(in,in0,"the input is not modified"); sym_reach(1); delete g; }
ENTRY c10_sha256() { def(dS256); } //@ reach=1 b="SHA-256 over any compression function: every message of m*64+d bytes, m 0..2, d in {0,1,-17,-16,-9,-8,-2,-1}"
ENTRY c10_sha512() { def(dS512); } //@ reach=1 b="SHA-512, 128 byte blocks, as above"
ENTRY c10_sha3_256() { def(dK256); } //@ reach=1 b="SHA3-256, 136 byte blocks, as above"
ENTRY c10_sha3_512() { def(dK512); } //@ reach=1 b="SHA3-512, 72 byte blocks, as above"
ENTRY c10_blake256() { def(dB256); } //@ reach=1 b="BLAKE2s-256, as above"
ENTRY c10_blake512() { def(dB512); } //@ reach=1 b="BLAKE2b-512, as above"
ENTRY c10_skein256() { def(dN256); } //@ reach=1 b="Skein-256-256, as above"
ENTRY c10_skein512() { def(dN512); } //@ reach=1 b="Skein-512-512, as above"
ENTRY c10_skein1024() { def(dN1024); } //@ reach=1 b="Skein-1024-1024, as above"
// BLAKE2sp and BLAKE2bp
static void blakeTree(DK k){ g_env.laneOrder=1; bool eight=sym_choose(0,1)!=0; size_t N=eight?8:2,r=DI_[k].rate; size_t L2[]={0,1,r-1,r,r+1,2*r-1,2*r,2*r+1,3*r,3*r+5,4*r,4*r+1,5*r,5*r+1,6*r+5,7*r,9*r+3},L8[]={0,10,r,3*r+7,7*r,8*r-1,8*r,8*r+1,15*r+9,16*r,16*r+1,23*r,23*r+1,24*r+1}; size_t n=eight?L8[sym_choose(0,13)]:L2[sym_choose(0,16)];
  IDigest*d=tree(k,N); if(eight) N=k==dB256?8:4; sym_assert(d->IsParallel(),"[setup] parallel"); Bytes in=symBytes(n,"msg"),o(DI_[k].out); d->Update(in,0,n); d->Finalize(o,0); assertEq(o,k==dB256?refBlakeTree(in,IVS256,r,N):refBlakeTree(in,IVS512,r,N),"the parallel digest is BLAKE2's tree definition"); sym_reach(1); delete d; }
ENTRY c10_blake2sp() { blakeTree(dB256); } //@ reach=1 b="BLAKE2sp with 2 and with the standard's 8 (BLAKE2bp 4) lanes over any compression function: 0 to 9 blocks (2 lanes), 0 to 24 blocks (8 lanes)"
ENTRY c10_blake2bp() { blakeTree(dB512); } //@ reach=1 b="BLAKE2bp, as above"
