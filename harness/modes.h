#pragma once
#include "prp.h"
#include "ECB.h"
#include "CBC.h"
#include "CFB.h"
#include "OFB.h"
#include "CTR.h"
#include "ICM.h"
#include "SymmetricKey.h"
using namespace CEX::Cipher::Block::Mode;
enum MK { mECB, mCBC, mCFB, mOFB, mCTR, mICM };
// reference definitions (SP 800-38A; ICM: little endian counter); iv is the chaining state, updated
static void refMode(MK m,bool enc,const Bytes&key,Bytes&iv,size_t reg,const uint8_t*in,uint8_t*out,size_t n){
  uint8_t t[16];
  if(m==mECB){ for(size_t i=0;i+16<=n;i+=16) if(enc) prpE(key,in+i,out+i); else prpD(key,in+i,out+i); }
  else if(m==mCBC){ for(size_t i=0;i+16<=n;i+=16){ if(enc){ for(int j=0;j<16;++j) t[j]=in[i+j]^iv[j]; prpE(key,t,out+i); memcpy(iv.data(),out+i,16); } else { prpD(key,in+i,t); for(int j=0;j<16;++j) out[i+j]=t[j]^iv[j]; memcpy(iv.data(),in+i,16); } } }
  else if(m==mCFB){ for(size_t i=0;i+reg<=n;i+=reg){ prpE(key,iv.data(),t); Bytes c(reg); for(size_t j=0;j<reg;++j){ out[i+j]=in[i+j]^t[j]; c[j]=enc?out[i+j]:in[i+j]; } Bytes v(16); for(size_t j=0;j<16;++j) v[j]=j+reg<16?iv[j+reg]:c[j+reg-16]; iv=v; } }
  else if(m==mOFB){ for(size_t i=0;i+16<=n;i+=16){ prpE(key,iv.data(),t); for(int j=0;j<16;++j) out[i+j]=in[i+j]^t[j]; memcpy(iv.data(),t,16); } }
  else { for(size_t i=0;i<n;i+=16){ prpE(key,iv.data(),t); for(size_t j=0;j<16&&i+j<n;++j) out[i+j]=in[i+j]^t[j];
      unsigned c=1; for(int k=0;k<16;++k){ int p=m==mCTR?15-k:k; unsigned s=iv[p]+c; iv[p]=(uint8_t)s; c=s>>8; } } }
}
// a counter whose least significant byte is one of a few values and whose other bytes are arbitrary: with fewer than 256 blocks every carry chain is still possible
static Bytes symCounter(MK m){ Bytes iv=symBytes(16,"iv"); static const uint8_t lo[]={0x00,0x7D,0xEE,0xF9,0xFF}; if(m==mCTR||m==mICM) iv[m==mCTR?15:0]=lo[sym_choose(0,4)]; return iv; }
static ICipherMode* makeMode(MK m,IBlockCipher*c,size_t reg){ switch(m){ case mECB: return new ECB(c); case mCBC: return new CBC(c); case mCFB: return new CFB(c,reg); case mOFB: return new OFB(c); case mCTR: return new CTR(c); default: return new ICM(c); } }
static void initMode(ICipherMode*m,bool enc,const Bytes&key,const Bytes&iv){ SymmetricKey k(key,iv); m->Initialize(enc,k); }
