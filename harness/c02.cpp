// C02: block cipher modes, sequential processing
//@t 100
#include "modes.h"
// two calls (L1 then L2 bytes) at offsets io/oo; history: the object processed something under another key first
static void seq(MK m,bool enc,size_t L1,size_t L2,size_t io,size_t oo,bool hist,size_t reg){
  Prp cip; ICipherMode* c=makeMode(m,&cip,reg); c->ParallelProfile().IsParallel()=false;
  Bytes key=symBytes(16,"key"),iv=L1+L2>48?symCounter(m):symBytes(16,"iv");
  if(hist){ Bytes k0=symBytes(32,"oldkey"),v0(16,7),d0=symBytes(48,"olddata"),o0(48); initMode(c,sym_choose(0,1)!=0,k0,v0); c->Transform(d0,0,o0,0,(m==mCTR||m==mICM)?37:48); }
  size_t n=L1+L2; Bytes in=symBytes(io+n+2,"data"),out=symBytes(oo+n+3,"junk"),exp=out,in0=in;
  initMode(c,enc,key,iv);
  if(L1) c->Transform(in,io,out,oo,L1); if(L2) c->Transform(in,io+L1,out,oo+L1,L2);
  refMode(m,enc,key,iv,reg,in0.data()+io,exp.data()+oo,n);
  assertEq(out,exp,"the output is the mode's definition and nothing else is written"); assertEq(in,in0,"the input is not modified"); sym_reach(1);
  delete c;
}
static const size_t A1[]={0,16,128,144}, A2[]={16,48,112,128,160,272};
static void aligned(MK m,size_t reg=16){ bool enc=sym_choose(0,1)!=0; size_t a=A1[sym_choose(0,3)],b=A2[sym_choose(0,5)]; int k=(int)sym_choose(0,2); seq(m,enc,a,b,k==1?5:0,k==1?3:k==2?16:0,k==2,reg); }
static const size_t B2[]={0,1,8,15,16,17,31,33,100,127,128,129,143,144,255,256,257,263};
static const size_t PR[][2]={{0,0},{0,1},{0,15},{0,16},{0,17},{16,33},{0,127},{0,128},{16,129},{128,1},{144,143},{0,257},{128,135}};
static void streamQ(MK m){ bool enc=sym_choose(0,1)!=0; int q=(int)sym_choose(0,12); int k=(int)sym_choose(0,2); seq(m,enc,PR[q][0],PR[q][1],k==1?5:0,k==1?3:k==2?16:0,k==2,16); }
static void stream(MK m){ bool enc=sym_choose(0,1)!=0; size_t a=A1[sym_choose(0,3)],b=B2[sym_choose(0,17)]; int k=(int)sym_choose(0,2); seq(m,enc,a,b,k==1?5:0,k==1?3:k==2?16:0,k==2,16); }
ENTRY c02_ecb() { aligned(mECB); } //@ reach=1 b="ECB over any block cipher: calls of 0,16,128,144 then 16,48,112,128,160,272 bytes, offsets (0,0),(5,3),(0,16) the last after use under another key, every key, block and output content"
ENTRY c02_cbc() { aligned(mCBC); } //@ reach=1 b="CBC, as above"
ENTRY c02_cfb() { aligned(mCFB); } //@ reach=1 b="CFB with a 16 byte register, as above"
ENTRY c02_ofb() { aligned(mOFB); } //@ reach=1 b="OFB, as above"
ENTRY c02_cfb_reg() { size_t reg=(size_t)(1<<sym_choose(0,3)); bool enc=sym_choose(0,1)!=0; seq(mCFB,enc,reg,3*reg,1,2,sym_choose(0,1)!=0,reg); } //@ reach=1 b="CFB with registers of 1,2,4,8 bytes, 4 units in two calls, offsets 1,2, fresh and reused object"
ENTRY c02_ctr() { streamQ(mCTR); } //@ reach=1 b="CTR: calls of (0,0),(0,1),(0,15),(0,16),(0,17),(16,33),(0,127),(0,128),(16,129),(128,1),(144,143),(0,257),(128,135) bytes, offsets and histories as above, every counter value up to 48 bytes, above that every counter whose least significant byte is 0,7D,EE,F9 or FF"
ENTRY c02_icm() { streamQ(mICM); } //@ reach=1 b="ICM, as CTR"
ENTRY c02_ctr_all() { stream(mCTR); } //@ reach=1 tier=thorough b="CTR: calls of 0,16,128,144 then 0,1,8,15,16,17,31,33,100,127,128,129,143,144,255,256,257,263 bytes, offsets and histories as above, every counter value up to 48 bytes, above that every counter whose least significant byte is 0,7D,EE,F9 or FF"
ENTRY c02_icm_all() { stream(mICM); } //@ reach=1 tier=thorough b="ICM, as CTR"
// single-block interface
ENTRY c02_block() { //@ reach=1 b="EncryptBlock/DecryptBlock of every mode, three blocks in a row, both forms, every content"
  MK m=(MK)sym_choose(0,5); bool enc=sym_choose(0,1)!=0, off=sym_choose(0,1)!=0; Prp cip; ICipherMode* c=makeMode(m,&cip,16); Bytes key=symBytes(32,"key"),iv=symBytes(16,"iv"); initMode(c,enc,key,iv);
  Bytes in=symBytes(48,"data"),out(48),exp(48);
  for(int i=0;i<3;++i){ if(off){ if(enc) c->EncryptBlock(in,16*i,out,16*i); else c->DecryptBlock(in,16*i,out,16*i); } else { Bytes a(in.begin()+16*i,in.begin()+16*i+16),b(16); if(enc) c->EncryptBlock(a,b); else c->DecryptBlock(a,b); memcpy(&out[16*i],b.data(),16); } }
  refMode(m,enc,key,iv,16,in.data(),exp.data(),48); assertEq(out,exp,"block by block equals the mode's definition"); sym_reach(1); delete c;
}
// any message encrypted by one object is restored by another, and by the same object re-initialised
ENTRY c02_roundtrip() { //@ reach=1 b="every mode: 32 bytes (CTR, ICM: 0..40 bytes) encrypted then decrypted by another object and by the same object"
  MK m=(MK)sym_choose(0,5); size_t n=(m==mCTR||m==mICM)?(size_t)sym_choose(0,40):32; bool same=sym_choose(0,1)!=0; Prp c1,c2; ICipherMode*a=makeMode(m,&c1,16),*b=same?a:makeMode(m,&c2,16);
  Bytes key=symBytes(32,"key"),iv=symBytes(16,"iv"),in=symBytes(n,"data"),ct(n),pt(n); initMode(a,true,key,iv); if(n) a->Transform(in,0,ct,0,n); initMode(b,false,key,iv); if(n) b->Transform(ct,0,pt,0,n);
  assertEq(pt,in,"decryption restores the message"); sym_reach(1);
}
