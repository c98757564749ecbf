// C05: GCM over an arbitrary block cipher and an arbitrary GHASH multiplication, against SP 800-38D
//@t 140
#include "gm.h"
#include "GCM.h"
#include "CryptoAuthenticationFailure.h"
using CEX::Exception::CryptoAuthenticationFailure;
static const size_t NL[]={12,8,16,20,13,33}, AL[]={0,5,16,20,33}, ML[]={0,1,15,16,17,32,33,48,65,130,143};
struct G { Prp cip; GCM*g; G(bool par=false){ g=new GCM(&cip); g->ParallelProfile().IsParallel()=par; } ~G(){ delete g; } };
struct Ref { Bytes key,nonce; uint8_t h[16],j0[16]; void set(const Bytes&k,const Bytes&n){ key=k; nonce=n; refJ0(k,n,h,j0); if(n.size()!=12) sym_assume(j0[15]<0xF0); } };
static void init(GCM*g,bool enc,const Bytes&k,const Bytes&n){ SymmetricKey p(k,n); g->Initialize(enc,p); }
// encrypts and compares with the reference
static void encOne(GCM*g,Ref&r,size_t al,size_t ml,size_t io,size_t oo,bool secureAad=false){
  Bytes aad=symBytes(al,"aad"),in=symBytes(io+ml+1,"msg"),out=symBytes(oo+ml+16+3,"junk"),exp=out,in0=in;
  if(al){ Bytes a2(al+3); memcpy(a2.data()+2,aad.data(),al); if(secureAad){ CEX::SecureVector<uint8_t> s(a2.begin(),a2.end()); g->SetAssociatedData(s,2,al); } else g->SetAssociatedData(a2,2,al); }
  g->Transform(in,io,out,oo,ml);
  Bytes pt(in.begin()+io,in.begin()+io+ml),ct; refCtr(r.key,r.j0,pt,ct); uint8_t tag[16]; refTag(r.key,r.h,r.j0,aad,ct,tag);
  if(ml) memcpy(exp.data()+oo,ct.data(),ml); memcpy(exp.data()+oo+ml,tag,16);
  assertEq(out,exp,"cipher-text and tag are those of SP 800-38D and nothing else is written"); assertEq(in,in0,"the input is not modified"); assertEq(g->Tag(),Bytes(tag,tag+16),"Tag() reports the tag");
}
// decrypts an arbitrary message with an arbitrary tag
static bool decOne(GCM*g,Ref&r,size_t al,size_t ml,size_t io,size_t oo){
  Bytes aad=symBytes(al,"aad"),in=symBytes(io+ml+16,"ct"),out=symBytes(oo+ml+2,"junk"),exp=out,in0=in;
  if(al) g->SetAssociatedData(aad,0,al);
  bool ok=true; try{ g->Transform(in,io,out,oo,ml); }catch(CryptoAuthenticationFailure&){ ok=false; }
  Bytes ct(in.begin()+io,in.begin()+io+ml),pt; uint8_t tag[16]; refTag(r.key,r.h,r.j0,aad,ct,tag);
  sym_assert(ok==sym_eq(tag,in.data()+io+ml,16),"a message is accepted exactly when its whole tag is right");
  if(ok){ refCtr(r.key,r.j0,ct,pt); if(ml) memcpy(exp.data()+oo,pt.data(),ml); }
  assertEq(out,exp,ok?"the plain-text is SP 800-38D's":"a rejected message leaves the output untouched"); assertEq(in,in0,"the input is not modified"); return ok;
}
ENTRY c05_enc() { //@ reach=1 b="encryption: 16 and 32 byte keys, nonces of 12,8,16,20,13,33 bytes, every associated data of 0,5,16,20,33 bytes with messages of 17 bytes"
  G o; Ref r; Bytes k=symBytes(sym_choose(0,1)?32:16,"key"),n=symBytes(NL[sym_choose(0,5)],"nonce"); r.set(k,n); init(o.g,true,k,n); encOne(o.g,r,AL[sym_choose(0,4)],17,3,1,sym_choose(0,1)); sym_reach(1); }
ENTRY c05_enclen() { //@ reach=1 b="encryption: messages of 0,1,15,16,17,32,33,48,65,130,143 bytes, associated data of 0 and 20 bytes, 12 byte nonces, offsets"
  G o; Ref r; Bytes k=symBytes(16,"key"),n=symBytes(12,"nonce"); r.set(k,n); init(o.g,true,k,n); bool b=sym_choose(0,1); encOne(o.g,r,b?20:0,ML[sym_choose(0,10)],b?0:2,b?5:0); sym_reach(1); }
ENTRY c05_dec() { //@ reach=1,2 b="decryption of every cipher-text and tag: messages of 0,1,15,16,17,32,33,48,65,130,143 bytes, associated data of 0 and 20 bytes, 12 and 16 byte nonces"
  G o; Ref r; bool b=sym_choose(0,1); Bytes k=symBytes(16,"key"),n=symBytes(b?12:16,"nonce"); r.set(k,n); init(o.g,false,k,n); sym_reach(decOne(o.g,r,b?20:0,ML[sym_choose(0,10)],b?0:2,b?5:0)?1:2); }
ENTRY c05_reuse() { //@ reach=1,2 b="a second message on the same object after encryption, an accepted or rejected decryption, or an abandoned message; with the same key, a new longer key or a new key of the same length, nonces of 12,16,20 bytes in any order"
  G o; Ref r; int kk=(int)sym_choose(0,2); Bytes k=symBytes(kk==2?32:16,"key"),n=symBytes(sym_choose(0,1)?12:16,"nonce"); r.set(k,n); int first=(int)sym_choose(0,3); init(o.g,first!=1,k,n);
  if(first==0) encOne(o.g,r,5,17,0,0); else if(first==1) decOne(o.g,r,5,17,0,0); else if(first==2) o.g->SetAssociatedData(symBytes(5,"aad"),0,5);
  size_t nl=NL[(int[]){0,2,3}[sym_choose(0,2)]]; Bytes n2=symBytes(nl,"nonce2"),k2=kk?symBytes(32,"key2"):k; r.set(k2,n2); bool dec=sym_choose(0,1);
  init(o.g,!dec,k2,n2); if(dec){ decOne(o.g,r,3,20,0,0); sym_reach(2); } else { encOne(o.g,r,3,20,0,0); sym_reach(1); } }
ENTRY c05_noncekey() { //@ reach=1 b="a second message under a new nonce without passing the key again (nonce-only initialisation), nonces of 12 and 16 bytes, after encryption or decryption"
  G o; Ref r; Bytes k=symBytes(16,"key"),n=symBytes(sym_choose(0,1)?12:16,"nonce"); r.set(k,n); bool d=sym_choose(0,1); init(o.g,!d,k,n); if(d) decOne(o.g,r,0,17,0,0); else encOne(o.g,r,0,17,0,0);
  Bytes n2=symBytes(sym_choose(0,1)?12:20,"nonce2"),none; sym_assume(n2[0]!=0); r.set(k,n2); init(o.g,true,none,n2); encOne(o.g,r,5,17,0,0); sym_reach(1); }
ENTRY c05_par() { //@ reach=1,2 b="parallel processing: 2 lanes, 256 byte parallel blocks, messages of 256,257,512,517 bytes, both lane orders"
  g_env.cores=2; g_env.l1total=1<<16; g_env.laneOrder=2; G o(true); o.g->ParallelProfile().SetBlockSize(256); Ref r; Bytes k=symBytes(16,"key"),n=symBytes(12,"nonce"); r.set(k,n); static const size_t P[]={256,257,512,517}; size_t ml=P[sym_choose(0,3)]; bool d=sym_choose(0,1);
  init(o.g,!d,k,n); sym_assert(o.g->IsParallel(),"[setup] parallel"); if(d){ decOne(o.g,r,5,ml,1,0); sym_reach(2); } else { encOne(o.g,r,5,ml,0,1); sym_reach(1); } }
ENTRY c05_wrap() { //@ reach=1 b="a 16 byte nonce whose pre-counter block ends in FFFFFFFF (32 bit counter wrap)"
  G o; Ref r; Bytes k=symBytes(16,"key"),n=symBytes(16,"nonce"); refJ0(k,n,r.h,r.j0); r.key=k; for(int i=12;i<16;++i) sym_assume(r.j0[i]==0xFF); sym_reach(1); init(o.g,true,k,n); encOne(o.g,r,0,17,0,0); }
