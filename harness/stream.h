// The stream ciphers with a reference key stream for each: ChaCha20, CSX512 and Threefish over arbitrary permutations;
// RCS and RWS against their own single-block computation on a fresh sequential object with the block counter set explicitly.
#pragma once
#ifndef NO_CORE
#define PRIM_CHACHA
#define PRIM_TF
#endif
#define PRIM_KECCAK
#include "prim.h"
#include "ChaChaP20.h"
#include "CSX512.h"
#include "TSX256.h"
#include "TSX512.h"
#include "TSX1024.h"
#include "RCS.h"
#ifdef WITH_RWS
// the layers of RWS's round as arbitrary functions of the 64 byte state (their values are property C26)
#include "Rijndael.h"
namespace CEX { namespace Cipher { namespace Block { namespace RijndaelBase {
typedef SecureVector<uint8_t> RWV;
template<> void Substitution<RWV>(RWV&S){ sym_uf("sub",S.data(),64,S.data(),64); }
template<> void ShiftRows512<RWV>(RWV&S){ sym_uf("shift",S.data(),64,S.data(),64); }
template<> void MixColumns<RWV>(RWV&S){ sym_uf("mix",S.data(),64,S.data(),64); }
}}}}
#include "RWS.cpp"
#else
#include "RWS.h"
#endif
#include "SHAKE.h"
#include "KMAC.h"
#include "SymmetricKey.h"
using namespace CEX; using namespace CEX::Cipher; using namespace CEX::Cipher::Stream; using CEX::Enumeration::StreamAuthenticators; using CEX::Enumeration::ShakeModes; using CEX::Enumeration::KmacModes;
enum SK { sCHACHA, sCSX512, sTSX256, sTSX512, sTSX1024, sRCS, sRWS };
struct SInfo { size_t key,nonce,block,info; };
static const SInfo SI[]={{32,8,64,16},{64,16,128,48},{32,16,32,16},{64,16,64,16},{128,16,128,16},{32,32,32,0},{32,64,64,0}};
static IStreamCipher* makeStream(SK k,bool auth){ switch(k){ case sCHACHA: return new ChaChaP20(auth); case sCSX512: return new CSX512(auth); case sTSX256: return new TSX256(auth); case sTSX512: return new TSX512(auth); case sTSX1024: return new TSX1024(auth); case sRCS: return new RCS(auth); default: return new RWS(auth); } }
static void initStream(IStreamCipher*c,bool enc,const Bytes&key,const Bytes&iv,const Bytes&info){ SymmetricKey k(key,iv,info); c->Initialize(enc,k); }
static const uint8_t SIG[]="expand 32-byte k"; static const uint8_t TFI[3][17]={"ThreefishP256R72","ThreefishP512R96","Threefish1024120"};
// CSX512's default code string
static const char CSXI[]="CSX512 KMAC authentication ver. 1c CEX++ library";
static Bytes leAdd(const Bytes&v,size_t,uint64_t add){ Bytes r=v; uint64_t w[2]; memcpy(w,r.data(),16); w[0]+=add; w[1]+=w[0]<add?1:0; memcpy(r.data(),w,16); return r; }
// key stream block n for cipher key ck (already derived when authentication is on)
static Bytes ksBlock(SK k,const Bytes&ck,const Bytes&iv,const Bytes&info,uint64_t n){
  Bytes o(SI[k].block);
  if(k==sCHACHA){ uint8_t t[64]; memcpy(t,info.size()?info.data():SIG,16); memcpy(t+16,ck.data(),32); memcpy(t+48,iv.data(),8); memcpy(t+56,&n,8); sym_uf("chacha512",o.data(),64,t,64); }
  else if(k==sCSX512){ uint8_t t[128]; Bytes cd(48); if(info.size()) memcpy(cd.data(),info.data(),info.size()); else memcpy(cd.data(),CSXI,48); memcpy(t,ck.data(),64); memcpy(t+64,cd.data(),48); Bytes c=leAdd(iv,16,n); memcpy(t+112,c.data(),16); sym_uf("chacha1024",o.data(),128,t,128); }
  else { size_t b=SI[k].block; Bytes t(ck); Bytes c=leAdd(iv,16,n); t.insert(t.end(),c.begin(),c.end()); const uint8_t*w=info.size()?info.data():TFI[k-sTSX256]; t.insert(t.end(),w,w+16); sym_uf(b==32?"tf256":b==64?"tf512":"tf1024",o.data(),b,t.data(),b+32); }
  return o;
}
static void refStream(SK k,bool auth,const Bytes&key,const Bytes&ck,const Bytes&iv,const Bytes&info,uint64_t first,const uint8_t*in,uint8_t*out,size_t n){
  size_t b=SI[k].block;
  for(size_t i=0;i<n;i+=b){ Bytes s;
    if(k>=sRCS){ IStreamCipher*c=makeStream(k,auth); c->ParallelProfile().IsParallel()=false; initStream(c,true,key,leAdd(iv,16,first+i/b),info); Bytes z(b); s=Bytes(b+(auth?64:0)); c->Transform(z,0,s,0,b); delete c; }
    else s=ksBlock(k,ck,iv,info,first+i/b);
    for(size_t j=0;j<b&&i+j<n;++j) out[i+j]=in[i+j]^s[j]; }
}
