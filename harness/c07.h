#pragma once
#include "stream.h"
static Bytes symNonce(SK k){ Bytes v=symBytes(SI[k].nonce,"iv"); static const uint64_t lo[]={0,0xFFFFFFFFFFFFFFFDull,0xFFFFFFFFFFFFFFFFull}; if(k==sCHACHA) return v;
  int c=(int)sym_choose(0,2); memcpy(v.data(),&lo[c],8); if(k>=sRCS&&c) memset(v.data()+8,0xFF,8); return v; }
// hist: 0 new object, 1 the object was used with other key, nonce and info, 2 same but with info then without
static void seq(SK k,size_t L1,size_t L2,size_t io,size_t oo,int hist,bool par){
  bool enc=sym_choose(0,1)!=0; g_env.laneOrder=2; g_env.l1total=1<<16;
  IStreamCipher*c=makeStream(k,false); if(!par) c->ParallelProfile().IsParallel()=false; else { c->ParallelProfile().SetBlockSize(c->ParallelProfile().ParallelMinimumSize()); sym_assert(c->ParallelProfile().IsParallel(),"[setup] parallel"); }
  Bytes key=symBytes(SI[k].key,"key"),iv=symNonce(k),info; 
  if(SI[k].info&&(k>=sRCS?io!=0:sym_choose(0,1))) info=symBytes(k==sCSX512&&hist?16:SI[k].info,"info");
  if(hist){ Bytes k0=symBytes(SI[k].key,"oldkey"),v0=symBytes(SI[k].nonce,"oldiv"),i0=symBytes(SI[k].info?SI[k].info:16,"oldinfo"),d0=symBytes(40,"olddata"),o0(40); if(k>=sRCS) v0[0]=0; initStream(c,sym_choose(0,1)!=0,k0,v0,i0); c->Transform(d0,0,o0,0,40); }
  if(par){ L1=0; L2+=c->ParallelProfile().ParallelMinimumSize(); }
  size_t n=L1+L2; Bytes in=symBytes(io+n+2,"data"),out=symBytes(oo+n+3,"junk"),exp=out,in0=in;
  initStream(c,enc,key,iv,info);
  if(L1) c->Transform(in,io,out,oo,L1); if(L2) c->Transform(in,io+L1,out,oo+L1,L2);
  refStream(k,false,key,key,iv,info,0,in0.data()+io,exp.data()+oo,n);
  assertEq(out,exp,"the output is the message combined with the key stream and nothing else is written"); assertEq(in,in0,"the input is not modified"); sym_reach(1);
  if(par){ Bytes in2=symBytes(SI[k].block+1,"more"),o2(in2.size()),e2(in2.size()); uint64_t used=(n+SI[k].block-1)/SI[k].block; c->Transform(in2,0,o2,0,in2.size()); refStream(k,false,key,key,iv,info,used,in2.data(),e2.data(),in2.size()); assertEq(o2,e2,"the key stream continues after a parallel call"); }
  delete c;
}
// lengths in blocks (a,b) plus a tail
static const size_t Q[][3]={{0,0,1},{0,1,0},{0,1,5},{1,0,7},{2,1,0},{0,4,0},{1,4,3},{4,5,1},{0,8,1},{8,1,0},{1,9,9}};
static void go(SK k,int q){ size_t b=SI[k].block; int m=(int)sym_choose(0,2); seq(k,Q[q][0]*b,Q[q][1]*b+Q[q][2],m==1?5:0,m==1?3:m==2?16:0,m==2,false); }
static void goPar(SK k){ static const size_t T[]={0,1,33,129}; int m=(int)sym_choose(0,1); seq(k,0,T[sym_choose(0,3)]+(sym_choose(0,1)?SI[k].block*3:0),m?7:0,m?9:0,0,true); }
