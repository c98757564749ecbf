// C09: digests do not depend on how the input is divided, on offsets or on what the object hashed before
//@t 100
#include "dig.h"
static Bytes whole(DK k,const uint8_t*m,size_t n){ Bytes v(m,m+n),o(DI_[k].out); IDigest*d=makeDigest(k,false); d->Update(v,0,n); d->Finalize(o,0); delete d; return o; }
static void chunks(DK k){
  size_t r=DI_[k].rate; size_t P[]={0,1,r-1,r,r+1,r-9,2*r}; size_t a=P[sym_choose(1,6)],b=P[sym_choose(0,6)],c=P[sym_choose(0,5)]; int hist=(int)sym_choose(0,3); size_t n=a+b+c;
  IDigest*d=makeDigest(k,false); Bytes in=symBytes(n+4,"msg"),o(DI_[k].out),in0=in;
  if(hist){ Bytes old=symBytes(r+5,"old"); d->Update(old,0,hist==3?r:old.size()); if(hist==1) d->Finalize(o,0); else d->Reset(); }
  d->Update(in,4,a); if(b==1) d->Update(in[4+a]); else d->Update(in,4+a,b); d->Update(in,4+a+b,c); d->Finalize(o,0);
  assertEq(o,whole(k,in.data()+4,n),"the digest of the parts is the digest of the whole"); assertEq(in,in0,"the input is not modified"); sym_reach(1); delete d; }
static void typed(DK k){ IDigest*d=makeDigest(k,false); uint8_t x=symBytes(1,"b")[0]; uint32_t y; uint64_t z; Bytes s=symBytes(12,"w"); memcpy(&y,s.data(),4); memcpy(&z,s.data()+4,8); d->Update(x); d->Update(y); d->Update(z); Bytes o(DI_[k].out); d->Finalize(o,0); Bytes m(1,x); m.insert(m.end(),s.begin(),s.end()); assertEq(o,whole(k,m.data(),13),"integers are hashed as their little-endian bytes"); sym_reach(1); delete d; }
// tree hashing with two lanes: one call against many calls, and every byte of the message counts
static void treeChunks(DK k){ g_env.laneOrder=2; size_t r=DI_[k].rate; size_t N[]={0,1,r,2*r-1,2*r,2*r+1,3*r,3*r+3,4*r,4*r+1,5*r,6*r+5,8*r+1}; size_t n=N[sym_choose(0,12)]; int how=(int)sym_choose(0,4);
  IDigest*d=tree(k,2),*e=tree(k,2); sym_assert(d->IsParallel(),"[setup] parallel"); Bytes in=symBytes(n+2,"msg"),o(DI_[k].out),x(DI_[k].out);
  if(how==4){ Bytes old=symBytes(3*r+5,"old"); d->Update(old,0,old.size()); d->Finalize(o,0); }
  d->Update(in,2,n); d->Finalize(o,0);
  size_t s=how==0?1:how==1?r-1:how==2?r:how==3?2*r+1:n; if(how==0&&n>2*r+1){ e->Update(in,2,n-2*r-1); for(size_t i=n-2*r-1;i<n;++i) e->Update(in,2+i,1); } else for(size_t i=0;i<n;i+=s) e->Update(in,2+i,n-i<s?n-i:s);
  e->Finalize(x,0); assertEq(o,x,"the tree digest of the parts is the tree digest of the whole"); sym_reach(1); delete d; delete e; }
ENTRY c09_sha256() { chunks(dS256); } //@ reach=1 b="SHA-256 over any compression function: three updates of 0,1,r-9,r-1,r,r+1,2r bytes (r the block size), on a new object, after a digest, after abandoned input and reset; every content"
ENTRY c09_sha512() { chunks(dS512); } //@ reach=1 b="SHA-512 over any compression function: three updates of 0,1,r-9,r-1,r,r+1,2r bytes (r the block size), on a new object, after a digest, after abandoned input and reset; every content"
ENTRY c09_sha3_256() { chunks(dK256); } //@ reach=1 b="SHA3-256 over any compression function: three updates of 0,1,r-9,r-1,r,r+1,2r bytes (r the block size), on a new object, after a digest, after abandoned input and reset; every content"
ENTRY c09_sha3_512() { chunks(dK512); } //@ reach=1 b="SHA3-512 over any compression function: three updates of 0,1,r-9,r-1,r,r+1,2r bytes (r the block size), on a new object, after a digest, after abandoned input and reset; every content"
ENTRY c09_blake256() { chunks(dB256); } //@ reach=1 b="BLAKE2s over any compression function: three updates of 0,1,r-9,r-1,r,r+1,2r bytes (r the block size), on a new object, after a digest, after abandoned input and reset; every content"
ENTRY c09_blake512() { chunks(dB512); } //@ reach=1 b="BLAKE2b over any compression function: three updates of 0,1,r-9,r-1,r,r+1,2r bytes (r the block size), on a new object, after a digest, after abandoned input and reset; every content"
ENTRY c09_skein256() { chunks(dN256); } //@ reach=1 b="Skein-256 over any compression function: three updates of 0,1,r-9,r-1,r,r+1,2r bytes (r the block size), on a new object, after a digest, after abandoned input and reset; every content"
ENTRY c09_skein512() { chunks(dN512); } //@ reach=1 b="Skein-512 over any compression function: three updates of 0,1,r-9,r-1,r,r+1,2r bytes (r the block size), on a new object, after a digest, after abandoned input and reset; every content"
ENTRY c09_skein1024() { chunks(dN1024); } //@ reach=1 b="Skein-1024 over any compression function: three updates of 0,1,r-9,r-1,r,r+1,2r bytes (r the block size), on a new object, after a digest, after abandoned input and reset; every content"
ENTRY c09_tree_sha256() { treeChunks(dS256); } //@ reach=1 b="SHA-256 tree hashing with two lanes in both orders: messages of up to 8 blocks plus one byte, one call against calls of 1, r-1, r, 2r+1 bytes, and after another digest"
ENTRY c09_tree_sha512() { treeChunks(dS512); } //@ reach=1 b="SHA-512 tree hashing with two lanes in both orders: messages of up to 8 blocks plus one byte, one call against calls of 1, r-1, r, 2r+1 bytes, and after another digest"
ENTRY c09_tree_sha3_256() { treeChunks(dK256); } //@ reach=1 b="SHA3-256 tree hashing with two lanes in both orders: messages of up to 8 blocks plus one byte, one call against calls of 1, r-1, r, 2r+1 bytes, and after another digest"
ENTRY c09_tree_sha3_512() { treeChunks(dK512); } //@ reach=1 b="SHA3-512 tree hashing with two lanes in both orders: messages of up to 8 blocks plus one byte, one call against calls of 1, r-1, r, 2r+1 bytes, and after another digest"
ENTRY c09_tree_blake256() { treeChunks(dB256); } //@ reach=1 b="BLAKE2s tree hashing with two lanes in both orders: messages of up to 8 blocks plus one byte, one call against calls of 1, r-1, r, 2r+1 bytes, and after another digest"
ENTRY c09_tree_blake512() { treeChunks(dB512); } //@ reach=1 b="BLAKE2b tree hashing with two lanes in both orders: messages of up to 8 blocks plus one byte, one call against calls of 1, r-1, r, 2r+1 bytes, and after another digest"
ENTRY c09_tree_skein256() { treeChunks(dN256); } //@ reach=1 b="Skein-256 tree hashing with two lanes in both orders: messages of up to 8 blocks plus one byte, one call against calls of 1, r-1, r, 2r+1 bytes, and after another digest"
ENTRY c09_tree_skein512() { treeChunks(dN512); } //@ reach=1 b="Skein-512 tree hashing with two lanes in both orders: messages of up to 8 blocks plus one byte, one call against calls of 1, r-1, r, 2r+1 bytes, and after another digest"
ENTRY c09_tree_skein1024() { treeChunks(dN1024); } //@ reach=1 b="Skein-1024 tree hashing with two lanes in both orders: messages of up to 8 blocks plus one byte, one call against calls of 1, r-1, r, 2r+1 bytes, and after another digest"
ENTRY c09_typed() { typed((DK)sym_choose(0,8)); } //@ reach=1 b="every digest: one 8 bit, one 32 bit and one 64 bit update"
