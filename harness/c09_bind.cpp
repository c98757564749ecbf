// C09: two messages of one length with one tree digest are one message, when compression functions do not collide
//@t 100
#include "sym.h"
#include <vector>
#include <string>
#include <string.h>
static int g_run=0; static size_t g_pos=0; static std::vector<std::pair<Bytes,Bytes>> g_calls;
// call k of the second run returns what call k of the first did, if given the same, and otherwise something that differs (in the first and in the last 32 bytes)
static void inj(const char*nm,void*out,size_t on,const void*in,size_t n){
  sym_quiet(1); Bytes i((const uint8_t*)in,(const uint8_t*)in+n),f=symBytes(on,nm);
  if(g_run==0) g_calls.push_back({i,f});
  else { sym_assert(g_pos<g_calls.size()&&g_calls[g_pos].first.size()==n,"both messages are processed alike"); auto&c=g_calls[g_pos++]; bool eq=sym_eq(c.first.data(),i.data(),n);
uint8_t m=(uint8_t)-(uint8_t)eq; bool d1=!sym_eq(f.data(),c.second.data(),32),d2=!sym_eq(f.data()+on-32,c.second.data()+on-32,32); sym_assume(bool(eq|(d1&d2)));
    for(size_t j=0;j<on;++j) f[j]=(uint8_t)((c.second[j]&m)|(f[j]&(uint8_t)~m)); }
  sym_quiet(0); memcpy(out,f.data(),on); }
#define sym_uf inj
#define SKEIN_FF
#include "dig.h"
static void bind(DK k){
  g_env.laneOrder=1; size_t r=DI_[k].rate; size_t N[]={1,r,r+1,2*r-1,2*r,2*r+1,3*r,4*r+3}; bool eight=sym_choose(0,1)!=0; size_t n=eight?8*r+1:N[sym_choose(0,7)]; Bytes m[2],o[2];
  for(g_run=0;g_run<2;++g_run){ IDigest*d=tree(k,eight?8:2); m[g_run]=symBytes(n,"msg"); o[g_run]=Bytes(DI_[k].out); d->Update(m[g_run],0,n); d->Finalize(o[g_run],0); delete d; }
  bool same=sym_eq(m[0].data(),m[1].data(),n); if(same) return;
  sym_assert(!sym_eq(o[0].data(),o[1].data(),DI_[k].out),"different messages have different tree digests"); sym_reach(1); }
ENTRY c09_bind_sha256() { bind(dS256); } //@ reach=1 b="SHA-256 tree hashing with two lanes (1 byte to 4 blocks plus 3 bytes) and the default lanes (8 blocks plus a byte): every pair of messages of one length"
ENTRY c09_bind_sha512() { bind(dS512); } //@ reach=1 b="SHA-512 tree hashing with two lanes (1 byte to 4 blocks plus 3 bytes) and the default lanes (8 blocks plus a byte): every pair of messages of one length"
ENTRY c09_bind_sha3_256() { bind(dK256); } //@ reach=1 b="SHA3-256 tree hashing with two lanes (1 byte to 4 blocks plus 3 bytes) and the default lanes (8 blocks plus a byte): every pair of messages of one length"
ENTRY c09_bind_sha3_512() { bind(dK512); } //@ reach=1 b="SHA3-512 tree hashing with two lanes (1 byte to 4 blocks plus 3 bytes) and the default lanes (8 blocks plus a byte): every pair of messages of one length"
ENTRY c09_bind_blake256() { bind(dB256); } //@ reach=1 b="BLAKE2s tree hashing with two lanes (1 byte to 4 blocks plus 3 bytes) and the default lanes (8 blocks plus a byte): every pair of messages of one length"
ENTRY c09_bind_blake512() { bind(dB512); } //@ reach=1 b="BLAKE2b tree hashing with two lanes (1 byte to 4 blocks plus 3 bytes) and the default lanes (8 blocks plus a byte): every pair of messages of one length"
ENTRY c09_bind_skein256() { bind(dN256); } //@ reach=1 b="Skein-256 tree hashing with two lanes (1 byte to 4 blocks plus 3 bytes) and the default lanes (8 blocks plus a byte): every pair of messages of one length"
ENTRY c09_bind_skein512() { bind(dN512); } //@ reach=1 b="Skein-512 tree hashing with two lanes (1 byte to 4 blocks plus 3 bytes) and the default lanes (8 blocks plus a byte): every pair of messages of one length"
ENTRY c09_bind_skein1024() { bind(dN1024); } //@ reach=1 b="Skein-1024 tree hashing with two lanes (1 byte to 4 blocks plus 3 bytes) and the default lanes (8 blocks plus a byte): every pair of messages of one length"
