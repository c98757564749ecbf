// C03: parallel processing of the modes equals sequential processing, lanes in either order, with disjoint footprints
//@t 140
#include "modes.h"
// ParallelBlockSize bytes are split over the lanes; L is a multiple of it plus a remainder
static void par(MK m,bool enc,size_t cores,size_t pbs,size_t blocks,size_t rem,size_t io,size_t oo,size_t first){
  g_env.cores=cores; g_env.l1total=1<<16; g_env.laneOrder=2;
  Prp cip; ICipherMode* c=makeMode(m,&cip,16); c->ParallelProfile().SetBlockSize(pbs); sym_assert(c->ParallelProfile().IsParallel(),"[setup] parallel"); pbs=c->ParallelBlockSize();
  Bytes key=symBytes(32,"key"),iv=symCounter(m); size_t n=pbs*blocks+rem; Bytes in=symBytes(io+first+n+2,"data"),out=symBytes(oo+first+n+3,"junk"),exp=out,in0=in;
  initMode(c,enc,key,iv);
  if(first) c->Transform(in,io,out,oo,first); c->Transform(in,io+first,out,oo+first,n);
  refMode(m,enc,key,iv,16,in0.data()+io,exp.data()+oo,first+n);
  assertEq(out,exp,"the parallel output is the mode's definition and nothing else is written"); assertEq(in,in0,"the input is not modified"); sym_reach(1);
  // the chaining state continues correctly after a parallel call
  Bytes in2=symBytes(16,"more"),o2(16),e2(16); c->Transform(in2,0,o2,0,16); if(rem%16==0){ refMode(m,enc,key,iv,16,in2.data(),e2.data(),16); assertEq(o2,e2,"the state after a parallel call continues the stream"); }
  sym_reach(2); delete c;
}
static void go(MK m,bool enc){ int k=(int)sym_choose(0,3); bool st=m==mCTR||m==mICM;
  if(k==0) par(m,enc,2,256,1,0,0,0,0); else if(k==1) par(m,enc,2,256,2,st?37:32,3,5,0); else if(k==2) par(m,enc,2,512,1,st?255:144,0,16,16); else par(m,enc,4,512,1,st?1:16,1,0,16); }
ENTRY c03_ecb() { go(mECB,sym_choose(0,1)!=0); } //@ reach=1,2 b="ECB over any block cipher: 2 and 4 lanes, parallel blocks of 256 and 512 bytes, 1 or 2 of them plus remainders, offsets, both lane orders"
ENTRY c03_cbc() { go(mCBC,sym_choose(0,1)!=0); } //@ reach=1,2 b="CBC, as above"
ENTRY c03_cfb() { go(mCFB,sym_choose(0,1)!=0); } //@ reach=1,2 b="CFB, as above"
ENTRY c03_ctr() { go(mCTR,true); } //@ reach=1,2 b="CTR, as above, every counter whose last byte is 0,7D,EE,F9 or FF"
ENTRY c03_icm() { go(mICM,true); } //@ reach=1,2 b="ICM, as above"
ENTRY c03_ctr_dec() { go(mCTR,false); } //@ reach=1,2 tier=thorough b="CTR decryption, as above"
ENTRY c03_icm_dec() { go(mICM,false); } //@ reach=1,2 tier=thorough b="ICM decryption, as above"
// changing the number of lanes never changes the result
ENTRY c03_degree() { //@ reach=1 b="ECB, CBC and CFB decryption with ParallelMaxDegree(2) on a 4 core profile, 512 and 544 bytes"
  MK m=(MK)sym_choose(0,2); g_env.cores=4; g_env.laneOrder=2; Prp cip; ICipherMode*c=makeMode(m,&cip,16); c->ParallelMaxDegree(2); c->ParallelProfile().SetBlockSize(512); size_t n=sym_choose(0,1)?512:544;
  Bytes key=symBytes(16,"key"),iv=symBytes(16,"iv"),in=symBytes(n,"data"),out(n),exp(n); initMode(c,false,key,iv); c->Transform(in,0,out,0,n); refMode(m,false,key,iv,16,in.data(),exp.data(),n); assertEq(out,exp,"two lanes on four cores"); sym_reach(1); delete c; }
