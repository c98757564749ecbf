// C25: the streaming GHASH object computes SP 800-38D's GHASH of (associated data, ciphertext) for every split into calls; the product is an arbitrary function of key and block
//@t 60
//@with GHASH
#include "gm.h"
#include "GHASH.h"
using CEX::Digest::GHASH;
static void keyed(GHASH&g,uint8_t h[16]){ sym_bytes(h,16,"h"); std::vector<uint64_t> k(2); for(int i=0;i<16;i++) k[i/8]=k[i/8]<<8|h[i]; g.Initialize(k); }
static void hist(size_t na,size_t n1,size_t n2,bool again){ GHASH g; uint8_t h[16]; keyed(g,h); if(again){ Bytes o(16),x=symBytes(21,"old"); g.Update(x,0,o,21); g.Clear(); }
  Bytes a=symBytes(na,"a"),d=symBytes(3+n1+n2,"d"),o(16),c(d.begin()+3,d.end()); if(na) g.Multiply(a,o,na); g.Update(d,3,o,n1); g.Update(d,3+n1,o,n2); g.Finalize(o,na,n1+n2); uint8_t y[16]; refGhash(h,a,c,y); sym_assert_eq(o.data(),y,16,"the digest of the data"); sym_reach(1); }
ENTRY c25_ghash_split(){ size_t n=sym_choose(0,40); size_t i=sym_choose(0,5); static const size_t S[]={0,1,15,16,17,33}; hist(0,S[i],n,false); } //@ reach=1 b="no associated data; a first piece of 0, 1, 15, 16, 17, 33 bytes and a second of 0..40, all contents and keys"
ENTRY c25_ghash_aad(){ size_t n=sym_choose(0,35); size_t i=sym_choose(0,3); static const size_t S[]={0,1,16,20}; hist(16*S[i]/16,n/2,n-n/2,i&1); } //@ reach=1 b="associated data of 0, 1, 16, 20 bytes, text of 0..35 bytes in two pieces, on a fresh and on a cleared object"
ENTRY c25_ghash_rekey(){ GHASH g; uint8_t h[16]; keyed(g,h); Bytes o(16),x=symBytes(21,"old"); g.Update(x,0,o,21); g.Reset(); keyed(g,h); Bytes d=symBytes(19,"d"); o.assign(16,0); g.Update(d,0,o,19); g.Finalize(o,0,19); uint8_t y[16]; refGhash(h,Bytes(),d,y); sym_assert_eq(o.data(),y,16,"the digest under the new key"); sym_reach(1); } //@ reach=1 b="a second key after Reset with a partial block pending, 19 bytes"
