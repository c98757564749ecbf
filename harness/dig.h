// The message digests over arbitrary compression functions, with their standards' definitions as reference.
#pragma once
#define PRIM_KECCAK
#define PRIM_SHA2
#define PRIM_BLAKE
#define PRIM_SKEIN
#include "prim.h"
#include "SHA2256.h"
#include "SHA2512.h"
#include "SHA3256.h"
#include "SHA3512.h"
#include "Blake256.h"
#include "Blake512.h"
#include "Skein256.h"
#include "Skein512.h"
#include "Skein1024.h"
using namespace CEX; using namespace CEX::Digest;
enum DK { dS256,dS512,dK256,dK512,dB256,dB512,dN256,dN512,dN1024 };
struct DInfo { size_t rate,out; };
static const DInfo DI_[]={{64,32},{128,64},{136,32},{72,64},{64,32},{128,64},{32,32},{64,64},{128,128}};
static IDigest* makeDigest(DK k,bool par){ switch(k){ case dS256: return new SHA2256(par); case dS512: return new SHA2512(par); case dK256: return new SHA3256(par); case dK512: return new SHA3512(par); case dB256: return new Blake256(par); case dB512: return new Blake512(par); case dN256: return new Skein256(par); case dN512: return new Skein512(par); default: return new Skein1024(par); } }
static void be(uint8_t*o,uint64_t v,int n){ for(int i=0;i<n;++i) o[i]=(uint8_t)(v>>(8*(n-1-i))); }
template<class W> static Bytes refSha2(const uint8_t*m,size_t n,const W*iv,size_t rate){ std::array<W,8> s; for(int i=0;i<8;++i) s[i]=iv[i]; Bytes p(m,m+n); p.push_back(0x80); while(p.size()%rate!=rate-8) p.push_back(0); uint8_t l[8]; be(l,8*(uint64_t)n,8); p.insert(p.end(),l,l+8);
  if(rate==128&&(n%128)>=112&&(n%128)<120) p.insert(p.end()-8,128,0); // the length field has sixteen bytes
  for(size_t i=0;i<p.size();i+=rate){ Bytes b(p.begin()+i,p.begin()+i+rate); uint8_t t[192]; memcpy(t,s.data(),sizeof(W)*8); memcpy(t+sizeof(W)*8,b.data(),rate); sym_uf(rate==64?"sha256":"sha512",s.data(),sizeof(W)*8,t,sizeof(W)*8+rate); }
  Bytes o(sizeof(W)*8); for(int i=0;i<8;++i) be(o.data()+i*sizeof(W),s[i],sizeof(W)); return o; }
// the last block through the library's own XOR (decided by C23, C24), so that both sides build the same terms
static bool g_tailxor=false;
static Bytes refKeccak(const uint8_t*m,size_t n,size_t rate,uint8_t dom,size_t out,const char*uf="keccak24"){ Bytes p(m,m+n); p.push_back(dom); while(p.size()%rate) p.push_back(0); p.back()|=0x80; std::array<uint64_t,25> S{}; Bytes o;
  for(size_t i=0;i<p.size();i+=rate){ if(g_tailxor&&i+rate==p.size()){ std::array<uint8_t,200> b{}; memcpy(b.data(),&p[i],rate); CEX::Tools::MemoryTools::XOR(b,0,S,0,rate); } else for(size_t j=0;j<rate/8;++j){ uint64_t w; memcpy(&w,p.data()+i+8*j,8); S[j]^=w; } sym_uf(uf,S.data(),200,S.data(),200); }
  while(true){ const uint8_t*b=(const uint8_t*)S.data(); for(size_t j=0;j<rate&&o.size()<out;++j) o.push_back(b[j]); if(o.size()==out) return o; sym_uf(uf,S.data(),200,S.data(),200); } }
template<class W> static Bytes refBlake(const uint8_t*m,size_t n,const W*iv,size_t rate){ std::array<W,8> h,v; for(int i=0;i<8;++i) h[i]=iv[i]; h[0]^=0x01010000u|(W)(sizeof(W)*8); size_t i=0;
  do{ size_t l=n-i<rate?n-i:rate; bool last=i+l==n; Bytes b(rate); memcpy(b.data(),m+i,l); i+=l; for(int j=0;j<8;++j) v[j]=iv[j]; v[4]^=(W)i; if(last) v[6]=~v[6]; uint8_t t[256]; memcpy(t,h.data(),sizeof(W)*8); memcpy(t+sizeof(W)*8,v.data(),sizeof(W)*8); memcpy(t+sizeof(W)*16,b.data(),rate); sym_uf(rate==64?"blake2s":"blake2b",h.data(),sizeof(W)*8,t,sizeof(W)*16+rate); } while(i<n);
  Bytes o(sizeof(W)*8); memcpy(o.data(),h.data(),o.size()); return o; }
static void ubi(Bytes&g,const uint8_t*m,size_t n,uint8_t type){ size_t b=g.size(),i=0; do{ size_t l=n-i<b?n-i:b; Bytes x(b); memcpy(x.data(),m+i,l); uint64_t t[2]={i+l,((uint64_t)type<<56)|(i==0?1ull<<62:0)|(i+l==n?1ull<<63:0)}; Bytes a=x; a.insert(a.end(),(uint8_t*)t,(uint8_t*)t+16); a.insert(a.end(),g.begin(),g.end()); sym_uf(b==32?"skein256":b==64?"skein512":"skein1024",g.data(),b,a.data(),a.size()); for(size_t j=0;j<b;++j) g[j]^=x[j]; i+=l; } while(i<n); }
static Bytes refSkein(const uint8_t*m,size_t n,size_t b){ Bytes g(b); uint8_t c[32]={0}; memcpy(c,"SHA3",4); c[4]=1; uint64_t ol=b*8; memcpy(c+8,&ol,8); ubi(g,c,32,4); ubi(g,m,n,48); uint8_t z[8]={0}; ubi(g,z,8,63); return g; }
static const uint32_t IVS256[8]={0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19};
static const uint64_t IVS512[8]={0x6a09e667f3bcc908ull,0xbb67ae8584caa73bull,0x3c6ef372fe94f82bull,0xa54ff53a5f1d36f1ull,0x510e527fade682d1ull,0x9b05688c2b3e6c1full,0x1f83d9abfb41bd6bull,0x5be0cd19137e2179ull};
static Bytes refDigest(DK k,const uint8_t*m,size_t n){ switch(k){ case dS256: return refSha2(m,n,IVS256,64); case dS512: return refSha2(m,n,IVS512,128); case dK256: return refKeccak(m,n,136,6,32); case dK512: return refKeccak(m,n,72,6,64); case dB256: return refBlake(m,n,IVS256,64); case dB512: return refBlake(m,n,IVS512,128); default: return refSkein(m,n,DI_[k].rate); } }
// BLAKE2sp / BLAKE2bp with N lanes: leaf i hashes blocks i, i+N, ... ; the root hashes the leaf digests
template<class W> static Bytes refBlakeNode(const std::vector<Bytes>&blocks,const Bytes&tail,const W*iv,size_t rate,size_t N,size_t off,int depth,bool lastnode){
  std::array<W,8> h,v; Bytes p(sizeof(W)*8); p[0]=(uint8_t)(sizeof(W)*8); p[2]=(uint8_t)N; p[3]=2; p[8]=(uint8_t)off; if(rate==64){ p[14]=(uint8_t)depth; p[15]=32; } else { p[16]=(uint8_t)depth; p[17]=64; }
  for(int i=0;i<8;++i){ W w; memcpy(&w,p.data()+i*sizeof(W),sizeof(W)); h[i]=iv[i]^w; } uint64_t c=0;
  for(size_t q=0;q<=blocks.size();++q){ bool last=q==blocks.size(); Bytes b=last?tail:blocks[q]; c+=b.size(); b.resize(rate); for(int j=0;j<8;++j) v[j]=iv[j]; v[4]^=(W)c; if(last){ v[6]=~v[6]; if(lastnode) v[7]=~v[7]; }
    uint8_t t[256]; memcpy(t,h.data(),sizeof(W)*8); memcpy(t+sizeof(W)*8,v.data(),sizeof(W)*8); memcpy(t+sizeof(W)*16,b.data(),rate); sym_uf(rate==64?"blake2s":"blake2b",h.data(),sizeof(W)*8,t,sizeof(W)*16+rate); }
  Bytes o(sizeof(W)*8); memcpy(o.data(),h.data(),o.size()); return o; }
static void cutLast(const Bytes&m,size_t rate,std::vector<Bytes>&b,Bytes&tail){ size_t i=0; while(m.size()-i>rate){ b.push_back(Bytes(m.begin()+i,m.begin()+i+rate)); i+=rate; } tail=Bytes(m.begin()+i,m.end()); }
template<class W> static Bytes refBlakeTree(const Bytes&m,const W*iv,size_t rate,size_t N){ Bytes codes; for(size_t l=0;l<N;++l){ Bytes x; for(size_t i=l*rate;i<m.size();i+=N*rate) for(size_t j=i;j<i+rate&&j<m.size();++j) x.push_back(m[j]); std::vector<Bytes> b; Bytes t; cutLast(x,rate,b,t); Bytes d=refBlakeNode(b,t,iv,rate,N,l,0,l==N-1); codes.insert(codes.end(),d.begin(),d.end()); }
  std::vector<Bytes> b; Bytes t; cutLast(codes,rate,b,t); return refBlakeNode(b,t,iv,rate,N,0,1,true); }
static IDigest* tree(DK k,size_t deg){ g_env.cores=deg; g_env.l1total=1<<16; IDigest*d=makeDigest(k,true); if(deg!=8){ d->ParallelMaxDegree(deg); d->ParallelProfile().SetBlockSize(d->ParallelProfile().ParallelMinimumSize()); d->Reset(); } return d; }
