// C06: HBA over an arbitrary block cipher and an arbitrary MAC; key derivation by the real SHAKE/HKDF over arbitrary compression functions
//@t 140
#define PRIM_KECCAK
#define PRIM_SHA2
#include "prim.h"
#include "modes.h"
#include "ufmac.h"
#include "HBA.h"
#include "SHAKE.h"
#include "HKDF.h"
#include "CryptoAuthenticationFailure.h"
#include "CryptoCipherModeException.h"
using CEX::Exception::CryptoAuthenticationFailure; typedef StreamAuthenticators SA; typedef CEX::SecureVector<uint8_t> SV;
static const SA AUTH[]={SA::KMAC256,SA::KMAC512,SA::HMACSHA2256,SA::HMACSHA2512,SA::Poly1305};
static SV sv(const Bytes&b){ return SV(b.begin(),b.end()); } static Bytes us(const SV&b){ return Bytes(b.begin(),b.end()); }
static void le64(uint64_t v,uint8_t*p){ for(int i=0;i<8;++i) p[i]=(uint8_t)(v>>(8*i)); }
// the documented construction
struct Ref { SA a; bool hm; Bytes ck,mk,iv,cust,name,buf; uint64_t ctr; size_t ml;
  Bytes kdf(const Bytes&k,size_t n1,size_t n2,Bytes*second){ Bytes o(n1);
    if(!hm){ CEX::Kdf::SHAKE g(a==SA::KMAC512?CEX::Enumeration::ShakeModes::SHAKE512:CEX::Enumeration::ShakeModes::SHAKE256); g.Initialize(sv(k),sv(cust),sv(name)); SV x(n1); g.Generate(x); o=us(x); if(second){ SV y(n2); g.Generate(y); *second=us(y); } }
    else { CEX::Kdf::HKDF g(CEX::Enumeration::SHA2Digests::SHA2256); SV t(32); g.Extract(sv(k),sv(name),t); SV z(0); SymmetricKey kp(t,z,sv(cust)); g.Initialize(kp); SV x(n1); g.Generate(x); o=us(x); if(second){ SV y(n2); g.Generate(y); *second=us(y); } }
    return o; }
  void init(SA A,const std::string&nm,const Bytes&k,const Bytes&nonce,const Bytes&info){ a=A; hm=A==SA::HMACSHA2256||A==SA::HMACSHA2512; cust=info; iv=nonce; ctr=1; buf.clear(); name.assign(10+nm.size(),0); le64(1,name.data()); name[8]=(uint8_t)(k.size()*8); name[9]=(uint8_t)((k.size()*8)>>8); memcpy(name.data()+10,nm.data(),nm.size());
    ml=hm?32:A==SA::KMAC512?64:32; ck=kdf(k,hm?32:k.size(),ml,&mk); }
  void aad(const Bytes&x){ if(x.empty()) return; buf.insert(buf.end(),x.begin(),x.end()); uint32_t n=x.size(); for(int i=0;i<4;++i) buf.push_back((uint8_t)(n>>(8*i))); }
  Bytes tag(const Bytes&ct){ buf.insert(buf.end(),iv.begin(),iv.end()); buf.insert(buf.end(),ct.begin(),ct.end()); ctr+=ct.size(); uint8_t c[8]; le64(ctr+16+8,c); buf.insert(buf.end(),c,c+8); Bytes t=ufTag(macTag(a),mk,buf); buf.clear(); le64(ctr,name.data()); mk=kdf(mk,ml,0,0); return t; }
  Bytes crypt(const Bytes&in){ Bytes o(in.size()); refMode(mICM,true,ck,iv,16,in.data(),o.data(),in.size()); return o; } };
static Bytes symIv(bool wrap=false){ Bytes v=symBytes(16,"nonce"); if(wrap){ v[0]=0xFF; v[1]=5; } else v[0]=3; return v; }
struct H { Prp cip; HBA*h; Ref r; SA a; H(SA A,bool par=false):a(A){ h=new HBA(&cip,A); h->ParallelProfile().IsParallel()=par; } ~H(){ delete h; }
  void init(bool enc,const Bytes&k,const Bytes&n,const Bytes&info){ SymmetricKey p(k,n,info); h->Initialize(enc,p); r.init(a,h->Name(),k,n,info); }
  void aad(size_t n,bool sec){ if(!n) return; Bytes x=symBytes(n,"aad"),y(n+8); memcpy(y.data()+7,x.data(),n); if(sec) h->SetAssociatedData(sv(y),7,n); else h->SetAssociatedData(y,7,n); r.aad(x); }
  void enc(size_t n,size_t io,size_t oo){ size_t tl=macTag(a); Bytes in=symBytes(io+n+1,"msg"),out=symBytes(oo+n+tl+2,"junk"),exp=out,in0=in; h->Transform(in,io,out,oo,n);
    Bytes iv0=r.iv,ct=r.crypt(Bytes(in0.begin()+io,in0.begin()+io+n)),iv1=r.iv; r.iv=iv0; Bytes t=r.tag(ct); r.iv=iv1; if(n) memcpy(exp.data()+oo,ct.data(),n); memcpy(exp.data()+oo+n,t.data(),tl);
    assertEq(out,exp,"cipher-text and tag follow the definition and nothing else is written"); assertEq(in,in0,"the input is not modified"); assertEq(h->Tag(),t,"Tag() reports the tag"); }
  bool dec(size_t n,size_t io,size_t oo){ size_t tl=macTag(a); Bytes in=symBytes(io+n+tl,"ct"),out=symBytes(oo+n+2,"junk"),exp=out,in0=in; bool ok=true; try{ h->Transform(in,io,out,oo,n); }catch(CryptoAuthenticationFailure&){ ok=false; }
    Bytes ct(in.begin()+io,in.begin()+io+n),t=r.tag(ct); sym_assert(ok==sym_eq(t.data(),in.data()+io+n,tl),"a message is accepted exactly when its whole tag is right");
    if(ok){ Bytes pt=r.crypt(ct); if(n) memcpy(exp.data()+oo,pt.data(),n); } assertEq(out,exp,ok?"the plain-text is the decryption":"a rejected message leaves the output untouched"); assertEq(in,in0,"the input is not modified"); return ok; } };
static const size_t ML[]={17,0,1,16,33,130};
ENTRY c06_enc() { //@ reach=1 b="encryption with the five authenticators, 16 and 32 byte keys, with and without a 5 byte info, associated data of 0,5 bytes, messages of 17 bytes, every key, nonce and data"
  H o(AUTH[sym_choose(0,4)]); bool b=sym_choose(0,1); o.init(true,symBytes(b?32:16,"key"),symIv(),symBytes(b?5:0,"info")); int q=(int)sym_choose(0,2); o.aad(q?5:0,q==2); o.enc(17,3,1); sym_reach(1); }
ENTRY c06_len() { //@ reach=1,2 b="encryption and decryption of 0,1,16,17,33,130 byte messages with KMAC256 and HMACSHA256"
  H o(sym_choose(0,1)?SA::KMAC256:SA::HMACSHA2256); bool d=sym_choose(0,1); o.init(!d,symBytes(32,"key"),symIv(sym_choose(0,1)),Bytes()); size_t n=ML[sym_choose(0,5)]; if(d) sym_reach(o.dec(n,1,2)?2:3); else { o.enc(n,0,3); sym_reach(1); } }
ENTRY c06_dec() { //@ reach=1,2 b="decryption of every cipher-text and tag with the five authenticators, associated data of 0,5 bytes, messages of 17 bytes"
  H o(AUTH[sym_choose(0,4)]); bool b=sym_choose(0,1); o.init(false,symBytes(b?32:16,"key"),symIv(),symBytes(b?0:5,"info")); o.aad(b?5:0,false); sym_reach(o.dec(17,2,1)?1:2); }
ENTRY c06_multi() { //@ reach=1,2 b="two messages under one key (the MAC is re-keyed in between) in both directions, 17 then 20 bytes, associated data on the second"
  H o(sym_choose(0,1)?SA::KMAC512:SA::HMACSHA2256); bool d=sym_choose(0,1); o.init(!d,symBytes(32,"key"),symIv(),symBytes(5,"info")); if(d){ o.aad(4,false); bool a=o.dec(17,0,0); o.aad(3,false); if(a) o.dec(20,0,0); sym_reach(1); } else { o.enc(17,0,0); o.aad(3,true); o.enc(20,0,0); sym_reach(2); } }
ENTRY c06_reinit() { //@ reach=1,2 b="re-initialisation with another key after a message, a rejected message or associated data"
  H o(sym_choose(0,1)?SA::KMAC256:SA::HMACSHA2512); int f=(int)sym_choose(0,2); o.init(f!=1,symBytes(16,"key"),symIv(),symBytes(f?5:0,"info")); o.aad(5,false); if(f==0) o.enc(17,0,0); else if(f==1) o.dec(17,0,0);
  bool d=sym_choose(0,1); o.init(!d,symBytes(32,"key2"),symIv(),symBytes(f?0:5,"info2")); if(d){ o.dec(20,0,0); sym_reach(1); } else { o.enc(20,0,0); sym_reach(2); } }
ENTRY c06_par() { //@ reach=1,2 b="parallel processing: 2 lanes, 256 byte parallel blocks, 257 and 512 byte messages, both lane orders"
  g_env.cores=2; g_env.l1total=1<<16; g_env.laneOrder=2; H o(SA::KMAC256,true); o.h->ParallelProfile().SetBlockSize(256); bool d=sym_choose(0,1); o.init(!d,symBytes(16,"key"),symIv(),Bytes()); size_t n=sym_choose(0,1)?257:512; if(d){ o.dec(n,1,0); sym_reach(1);} else { o.enc(n,0,1); sym_reach(2); } }
ENTRY c06_bounds() { //@ reach=1,2 b="associated data ranges: refused exactly when they leave the array, offsets 0..9 and lengths 0..9 of an 8 byte array"
  H o(SA::KMAC256); o.init(true,Bytes(16,1),Bytes(16,3),Bytes()); Bytes a(8,1); size_t f=sym_choose(0,9),n=sym_choose(0,9); bool thrown=false; try{ o.h->SetAssociatedData(a,f,n); }catch(CEX::Exception::CryptoCipherModeException&){ thrown=true; }
  if(n) sym_assert(thrown==(f+n>8),"a range is refused exactly when it leaves the array"); sym_reach(thrown?1:2); }
