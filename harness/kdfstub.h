// A key derivation function that is an uninterpreted function of its key, salt, info, and of the position of each output byte block
#pragma once
#include "sym.h"
#include "IKdf.h"
#include "SymmetricKey.h"
#include <string>
#include <cstring>
struct UfKdf : public CEX::Kdf::IKdf {
  CEX::Enumeration::Kdfs m_e; Bytes m_in; bool m_init=false; size_t m_pos=0;
  UfKdf(CEX::Enumeration::Kdfs e):m_e(e){}
  const CEX::Enumeration::Kdfs Enumeral() override { return m_e; }
  const bool IsInitialized() override { return m_init; }
  const size_t MinimumKeySize() override { return 16; }
  const size_t MinimumSaltSize() override { return 0; }
  const std::vector<CEX::Cipher::SymmetricKeySize> LegalKeySizes() override { return {}; }
  const std::string Name() override { return "KDF"; }
  static Bytes input(const Bytes&key,const Bytes&salt,const Bytes&info){ Bytes b; auto add=[&](const Bytes&x){ b.push_back((uint8_t)x.size()); b.push_back((uint8_t)(x.size()>>8)); b.insert(b.end(),x.begin(),x.end()); }; add(key); add(salt); add(info); return b; }
  // the stream, cut into blocks of 16 bytes
  static Bytes stream(const Bytes&in,size_t pos,size_t len){ Bytes r(len),b=in; b.push_back(0); b.push_back(0); size_t e=pos+len; uint8_t o[16]; for(size_t q=pos/16;q*16<e;q++){ b[in.size()]=(uint8_t)q; b[in.size()+1]=(uint8_t)(q>>8); sym_uf("KDF",o,16,b.data(),b.size()); for(int i=0;i<16;i++){ size_t a=q*16+i; if(a>=pos&&a<e) r[a-pos]=o[i]; } } return r; }
  template<class V> void gen(V&o,size_t off,size_t len){ sym_assert(m_init,"the key derivation function is initialised before use"); Bytes r=stream(m_in,m_pos,len); if(len) memcpy(o.data()+off,r.data(),len); m_pos+=len; }
  void Generate(std::vector<uint8_t> &O) override { gen(O,0,O.size()); }
  void Generate(CEX::SecureVector<uint8_t> &O) override { gen(O,0,O.size()); }
  void Generate(std::vector<uint8_t> &O,size_t o,size_t l) override { gen(O,o,l); }
  void Generate(CEX::SecureVector<uint8_t> &O,size_t o,size_t l) override { gen(O,o,l); }
  void Initialize(CEX::Cipher::ISymmetricKey &P) override { auto c=[](const std::vector<uint8_t>&v){ return Bytes(v.begin(),v.end()); }; m_in=input(c(P.Key()),c(P.IV()),c(P.Info())); m_init=true; m_pos=0; }
  void Reset() override { m_init=false; m_pos=0; }
};
