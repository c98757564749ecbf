// The MAC factory returns an arbitrary MAC: its tag is an uninterpreted function of the key and of everything it was given since it was keyed.
#pragma once
#include "sym.h"
#include "IMac.h"
#include "MacFromName.h"
#include "Macs.h"
#include "StreamAuthenticators.h"
#include <string>
using namespace CEX; using CEX::Enumeration::Macs; using CEX::Enumeration::StreamAuthenticators; using CEX::Cipher::SymmetricKeySize; using CEX::Cipher::ISymmetricKey;
static inline Bytes ufTag(size_t n,const Bytes&key,const Bytes&data){ Bytes t(n),b(key); b.insert(b.end(),data.begin(),data.end()); std::string nm="mac"+std::to_string(key.size()); sym_uf(nm.c_str(),t.data(),n,b.data(),b.size()); return t; }
static inline size_t macTag(StreamAuthenticators a){ return a==StreamAuthenticators::Poly1305?16:a==StreamAuthenticators::HMACSHA2512||a==StreamAuthenticators::KMAC512?64:32; }
struct UfMac : public Mac::IMac {
  StreamAuthenticators a; Bytes key,data; bool init=false; std::vector<SymmetricKeySize> ks; std::string nm;
  UfMac(StreamAuthenticators A):a(A){ size_t k=A==StreamAuthenticators::KMAC512||A==StreamAuthenticators::HMACSHA2512?64:32; ks.push_back(SymmetricKeySize(k,0,0)); nm="MAC"; }
  ~UfMac() override {}
  const Macs Enumeral() override { return (Macs)(uint8_t)a; }
  const size_t BlockSize() override { return 64; } const bool IsInitialized() override { return init; }
  const std::vector<SymmetricKeySize> LegalKeySizes() override { return ks; }
  const size_t MinimumKeySize() override { return 16; } const size_t MinimumSaltSize() override { return 0; }
  const std::string Name() override { return nm; } const size_t TagSize() override { return macTag(a); }
  void Compute(const Bytes&I,Bytes&O) override { Update(I,0,I.size()); Finalize(O,0); }
  size_t Finalize(Bytes&O,size_t o) override { sym_assert(init,"the MAC is keyed when it is finalized"); Bytes t=ufTag(TagSize(),key,data); memcpy(O.data()+o,t.data(),t.size()); Reset(); return t.size(); }
  size_t Finalize(SecureVector<uint8_t>&O,size_t o) override { Bytes t(TagSize()); Finalize(t,0); memcpy(O.data()+o,t.data(),t.size()); return t.size(); }
  void Initialize(ISymmetricKey&P) override { Reset(); key=P.Key(); init=true; }
  void Reset() override { data.clear(); key.clear(); init=false; }
  void Update(const Bytes&I,size_t o,size_t n) override { sym_assert(init,"the MAC is keyed when it is updated"); sym_assert(o+n<=I.size(),"the MAC is updated with bytes inside the array"); data.insert(data.end(),I.begin()+o,I.begin()+o+n); }
};
namespace CEX { namespace Helper { IMac* MacFromName::GetInstance(StreamAuthenticators t){ return new UfMac(t); } }}
