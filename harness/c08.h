#pragma once
#include "stream.h"
#include "CryptoAuthenticationFailure.h"
static SecureVector<uint8_t> sv(const Bytes&b){ SecureVector<uint8_t> r(b.size()); for(size_t i=0;i<b.size();++i) r[i]=b[i]; return r; }
static Bytes le64(uint64_t v){ Bytes b(8); memcpy(b.data(),&v,8); return b; }
static void app(Bytes&a,const Bytes&b){ a.insert(a.end(),b.begin(),b.end()); }
static Bytes sub(const Bytes&b,size_t o,size_t n){ return Bytes(b.begin()+o,b.begin()+o+n); }
// keys of the authenticated construction: cipher key (round keys for RCS/RWS) then MAC key from one SHAKE stream
struct AKeys { Bytes ck,mk; KmacModes m; };
static AKeys aKeys(SK k,IStreamCipher*c,const Bytes&key){
  AKeys a; bool big=k==sCSX512||k==sTSX512||k==sTSX1024; a.m=big?KmacModes::KMAC512:KmacModes::KMAC256;
  Kdf::SHAKE g(big?ShakeModes::SHAKE512:ShakeModes::SHAKE256); std::string n=c->Name(); Bytes nm((const uint8_t*)n.data(),(const uint8_t*)n.data()+n.size()); size_t ckn=SI[k].key;
  if(k<=sCSX512) g.Initialize(sv(key),sv(Bytes()),sv(nm));
  else if(k<=sTSX1024){ Bytes cu=le64(1); app(cu,nm); g.Initialize(sv(key),sv(cu)); }
  else { Bytes t=le64(k==sRCS?1:0); t.push_back(0); t.push_back(1); app(t,nm); g.Initialize(sv(key),sv(Bytes()),sv(t)); ckn=k==sRCS?32*23:64*41; }
  SecureVector<uint8_t> ck(ckn); g.Generate(ck); a.ck=Bytes(ck.data(),ck.data()+ckn);
  Mac::KMAC t(a.m); SymmetricKeySize ks=t.LegalKeySizes()[0]; size_t mn=ks.KeySize(); SecureVector<uint8_t> mk(mn); g.Generate(mk); a.mk=Bytes(mk.data(),mk.data()+mn); return a;
}
// the bytes fed to the MAC for a message: total is the number of message bytes processed since initialisation
static Bytes macInput(SK k,IStreamCipher*c,const std::vector<Bytes>&aad,const Bytes&ctr,const Bytes&ct,uint64_t total){
  Bytes m; for(auto&a:aad){ app(m,a); if(k!=sCHACHA){ Bytes l=le64(a.size()); l.resize(4); app(m,l); } }
  app(m,ctr); app(m,ct);
  if(k<=sCSX512) app(m,le64(total));
  else if(k<=sTSX1024){ std::string n=c->Name(); app(m,le64(1+total)); app(m,Bytes((const uint8_t*)n.data(),(const uint8_t*)n.data()+n.size())); }
  else app(m,le64((k==sRCS?1:0)+total+SI[k].nonce+8));
  return m;
}
static Bytes ctrBytes(SK k,const Bytes&iv,uint64_t blocks){ if(k==sCHACHA){ Bytes b=le64(blocks); return b; } return leAdd(iv,16,blocks); }
static Bytes kmacTag(Mac::KMAC&m,const Bytes&in,size_t n){ m.Update(in,0,in.size()); Bytes t(n); m.Finalize(t,0); return t; }
