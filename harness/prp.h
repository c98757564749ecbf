// An arbitrary 16 byte block cipher: encryption and decryption are uninterpreted inverse permutations of the block under the key.
#pragma once
#include "sym.h"
#include "IBlockCipher.h"
#include <string>
using namespace CEX; using namespace CEX::Cipher; using namespace CEX::Cipher::Block;
typedef std::vector<uint8_t> V8;
struct Prp : public IBlockCipher {
  std::vector<SymmetricKeySize> m_legal; Bytes m_key; bool m_enc=false,m_init=false; size_t m_cache; std::string m_name;
  Prp(size_t cache=0):m_cache(cache){ m_legal.push_back(SymmetricKeySize(16,16,0)); m_legal.push_back(SymmetricKeySize(32,16,0)); }
  ~Prp() override {}
  const size_t BlockSize() override { return 16; }
  const BlockCiphers Enumeral() override { return BlockCiphers::AES; }
  const bool IsEncryption() override { return m_enc; }
  const bool IsInitialized() override { return m_init; }
  const std::vector<SymmetricKeySize> &LegalKeySizes() override { return m_legal; }
  const std::string Name() override { return m_name; }
  const size_t Rounds() override { return 10; }
  const size_t StateCacheSize() override { return m_cache; }
  void op(int dir,const V8&in,size_t io,V8&out,size_t oo,size_t blocks){
    for(size_t i=0;i<blocks;++i) sym_prp("E",dir,out.data()+oo+16*i,in.data()+io+16*i,16,m_key.data(),m_key.size()); }
  void DecryptBlock(const V8 &I, V8 &O) override { op(1,I,0,O,0,1); }
  void DecryptBlock(const V8 &I, size_t i, V8 &O, size_t o) override { op(1,I,i,O,o,1); }
  void EncryptBlock(const V8 &I, V8 &O) override { op(0,I,0,O,0,1); }
  void EncryptBlock(const V8 &I, size_t i, V8 &O, size_t o) override { op(0,I,i,O,o,1); }
  void Initialize(bool Encryption, ISymmetricKey &P) override { m_enc=Encryption; m_init=true; m_key=P.Key(); }
  void Transform(const V8 &I, V8 &O) override { op(m_enc?0:1,I,0,O,0,1); }
  void Transform(const V8 &I, size_t i, V8 &O, size_t o) override { op(m_enc?0:1,I,i,O,o,1); }
  void Transform256(const V8 &I, size_t i, V8 &O, size_t o) override { op(m_enc?0:1,I,i,O,o,2); }
  void Transform512(const V8 &I, size_t i, V8 &O, size_t o) override { op(m_enc?0:1,I,i,O,o,4); }
  void Transform1024(const V8 &I, size_t i, V8 &O, size_t o) override { op(m_enc?0:1,I,i,O,o,8); }
  void Transform2048(const V8 &I, size_t i, V8 &O, size_t o) override { op(m_enc?0:1,I,i,O,o,16); }
};
static inline void prpE(const Bytes&key,const uint8_t*in,uint8_t*out){ sym_prp("E",0,out,in,16,key.data(),key.size()); }
static inline void prpD(const Bytes&key,const uint8_t*in,uint8_t*out){ sym_prp("E",1,out,in,16,key.data(),key.size()); }
