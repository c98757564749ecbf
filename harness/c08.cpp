// C08: authenticated stream ciphers
//@t 100
#include "c08.h"
// one message, optionally after a history, decided for every content
static const size_t LN[]={0,1,31,64,130};
static void pre(SK k,IStreamCipher*c,int hist){ // 0 new; 1 complete message under another key; 2 abandoned associated data; 3 failed decryption
  if(!hist) return; Bytes k0=symBytes(SI[k].key,"oldkey"),v0=symBytes(SI[k].nonce,"oldiv"),i0=SI[k].info?symBytes(SI[k].info,"oldinfo"):Bytes(),a0=symBytes(9,"oldaad"); 
  initStream(c,hist!=3,k0,v0,i0); size_t t=c->TagSize();
  if(hist!=3) c->SetAssociatedData(a0,0,9); if(hist==1){ Bytes d(33),o(33+t); c->Transform(d,0,o,0,33); }
  if(hist==3){ Bytes d=symBytes(20+t,"olddata"),o(20); try{ c->Transform(d,0,o,0,20); }catch(Exception::CryptoAuthenticationFailure&){ } }
}
static void one(SK k,bool enc,size_t n,int na,int hist,size_t io,size_t oo){
  IStreamCipher*c=makeStream(k,true); c->ParallelProfile().IsParallel()=false;
  Bytes key=symBytes(SI[k].key,"key"),iv=symBytes(SI[k].nonce,"iv"),info=SI[k].info&&na==1?symBytes(SI[k].info,"info"):Bytes(); memset(iv.data(),0,8);
  pre(k,c,hist); initStream(c,enc,key,iv,info);
  AKeys a=aKeys(k,c,key); Mac::KMAC mac(a.m); SymmetricKey mkp(a.mk); mac.Initialize(mkp); size_t t=c->TagSize();
  std::vector<Bytes> aad; for(int i=0;i<na;++i){ Bytes x=symBytes(5+12*i+4,"aad"); c->SetAssociatedData(x,2,x.size()-4); aad.push_back(sub(x,2,x.size()-4)); }
  if(enc){
    Bytes in=symBytes(io+n+1,"data"),out=symBytes(oo+n+t+3,"junk"),exp=out,in0=in; c->Transform(in,io,out,oo,n);
    refStream(k,true,key,a.ck,iv,info,0,in.data()+io,exp.data()+oo,n); Bytes tag=kmacTag(mac,macInput(k,c,aad,ctrBytes(k,iv,0),sub(exp,oo,n),n),t); memcpy(exp.data()+oo+n,tag.data(),t);
    assertEq(out,exp,"ciphertext and tag are the construction's, nothing else is written"); assertEq(in,in0,"the input is not modified"); assertEq(c->Tag(),tag,"Tag() is the tag"); sym_reach(1);
  } else {
    Bytes in=symBytes(io+n+t+1,"cipher"),out=symBytes(oo+n+3,"junk"),exp=out,out0=out; Bytes tag=kmacTag(mac,macInput(k,c,aad,ctrBytes(k,iv,0),sub(in,io,n),n),t); bool ok=true;
    try{ c->Transform(in,io,out,oo,n); }catch(Exception::CryptoAuthenticationFailure&){ ok=false; }
    bool good=sym_eq(in.data()+io+n,tag.data(),t); 
    if(ok){ sym_assert(good,"a message is accepted only with the tag of its contents"); refStream(k,true,key,a.ck,iv,info,0,in.data()+io,exp.data()+oo,n); assertEq(out,exp,"an accepted message decrypts to its plaintext"); sym_reach(1); }
    else { sym_assert(!good,"a message with the right tag is accepted"); assertEq(out,out0,"nothing is written for a rejected message"); sym_reach(2); }
  }
  delete c;
}
static void encQ(SK k){ int h=(int)sym_choose(0,3); if(h) one(k,true,33,2,h,0,0); else one(k,true,LN[sym_choose(0,4)],(int)sym_choose(0,2),0,sym_choose(0,1)?4:0,sym_choose(0,1)?6:0); }
static void decQ(SK k){ int h=(int)sym_choose(0,3); if(h) one(k,false,33,2,h,0,0); else one(k,false,LN[sym_choose(0,4)],(int)sym_choose(0,2),0,sym_choose(0,1)?4:0,sym_choose(0,1)?6:0); }
ENTRY c08_chacha_enc() { encQ(sCHACHA); } //@ reach=1 b="ChaChaP20 with authentication over any ChaCha and Keccak permutations: 0,1,31,64,130 message bytes, 0..2 associated data calls (5 and 17 bytes), offsets, histories (complete message, abandoned associated data, failed decryption), every key, nonce, info and content"
ENTRY c08_chacha_dec() { decQ(sCHACHA); } //@ reach=1,2 b="as above, every ciphertext and every tag"
ENTRY c08_csx512_enc() { encQ(sCSX512); } //@ reach=1 b="CSX512, as above"
ENTRY c08_csx512_dec() { decQ(sCSX512); } //@ reach=1,2 b="as above"
ENTRY c08_tsx256_enc() { encQ(sTSX256); } //@ reach=1 b="TSX256, as above"
ENTRY c08_tsx256_dec() { decQ(sTSX256); } //@ reach=1,2 b="as above"
ENTRY c08_tsx512_enc() { encQ(sTSX512); } //@ reach=1 b="TSX512, as above"
ENTRY c08_tsx512_dec() { decQ(sTSX512); } //@ reach=1,2 b="as above"
ENTRY c08_tsx1024_enc() { encQ(sTSX1024); } //@ reach=1 b="TSX1024, as above"
ENTRY c08_tsx1024_dec() { decQ(sTSX1024); } //@ reach=1,2 b="as above"
ENTRY c08_rcs_enc() { encQ(sRCS); } //@ reach=1 b="RCS with a 32 byte key, as above"
ENTRY c08_rcs_dec() { decQ(sRCS); } //@ reach=1,2 b="as above"
// an output array without room for the tag is refused before anything is written
ENTRY c08_room() { //@ reach=1 b="every cipher, 7 bytes, output arrays 1, 20 and TagSize bytes too small"
  SK k=(SK)sym_choose(0,5); IStreamCipher*c=makeStream(k,true); Bytes key=symBytes(SI[k].key,"key"),iv=symBytes(SI[k].nonce,"iv"),in=symBytes(7,"data"); initStream(c,true,key,iv,Bytes()); size_t t=c->TagSize(); int q=(int)sym_choose(0,2);
  Bytes out=symBytes(7+t-(q==0?1:q==1?20:t),"junk"),o0=out; bool th=false; try{ c->Transform(in,0,out,0,7); }catch(Exception::CryptoSymmetricException&){ th=true; }
  sym_assert(th,"refused"); assertEq(out,o0,"nothing is written"); sym_reach(1); delete c; }
// several messages without re-initialisation: sender and receiver stay in step, and the second tag covers the second message
static void two(SK k){
  size_t n1=SI[k].block,n2=33; bool enc=sym_choose(0,1)!=0; IStreamCipher*c=makeStream(k,true); c->ParallelProfile().IsParallel()=false; Bytes key=symBytes(SI[k].key,"key"),iv=symBytes(SI[k].nonce,"iv"); memset(iv.data(),0,8); initStream(c,enc,key,iv,Bytes());
  AKeys a=aKeys(k,c,key); Mac::KMAC mac(a.m); SymmetricKey mkp(a.mk); mac.Initialize(mkp); size_t t=c->TagSize(); Bytes m1=symBytes(n1,"first"),m2=symBytes(n2,"second"),c1(n1),c2(n2),x1(n1),x2(n2); std::vector<Bytes> no;
  refStream(k,true,key,a.ck,iv,Bytes(),0,m1.data(),x1.data(),n1); refStream(k,true,key,a.ck,iv,Bytes(),1,m2.data(),x2.data(),n2);
  Bytes t1=kmacTag(mac,macInput(k,c,no,ctrBytes(k,iv,0),enc?x1:m1,n1),t),t2=kmacTag(mac,macInput(k,c,no,ctrBytes(k,iv,1),enc?x2:m2,n1+n2),t);
  if(enc){ Bytes o1(n1+t),o2(n2+t); c->Transform(m1,0,o1,0,n1); c->Transform(m2,0,o2,0,n2); app(x1,t1); app(x2,t2); assertEq(o1,x1,"first message"); assertEq(o2,x2,"second message"); sym_reach(1); }
  else { Bytes i1=m1,i2=m2; app(i1,t1); Bytes g=symBytes(t,"tag"); app(i2,g); Bytes o2=symBytes(n2,"junk"),j=o2; c->Transform(i1,0,c1,0,n1); assertEq(c1,x1,"first message decrypts"); bool ok=true; try{ c->Transform(i2,0,o2,0,n2); }catch(Exception::CryptoAuthenticationFailure&){ ok=false; }
    sym_assert(ok==sym_eq(g.data(),t2.data(),t),"the second message is accepted exactly with its tag"); assertEq(o2,ok?x2:j,"plaintext or nothing"); sym_reach(2); }
  delete c; }
ENTRY c08_two() { two((SK)sym_choose(0,5)); } //@ reach=1,2 b="every cipher but RWS, a one block message followed by 33 bytes, both directions, every tag of the second"
