// C27: buffered generators and random value helpers over an arbitrary byte stream
//@t 90
//@exclude PrngFromName ProviderFromName
#include "sym.h"
#include <vector>
#include <memory>
#include <string>
#include <cstring>
#include <map>
#include <array>
#include <algorithm>
#include <limits>
#include <functional>
#include "IPrng.h"
#include "IDrbg.h"
#include "IProvider.h"
#include "PrngBase.h"
#include "PrngFromName.h"
#include "ProviderFromName.h"
#include "SymmetricKeySize.h"
#define private public
#include "SecureRandom.h"
#include "BCR.h"
#include "CSR.h"
#include "HCR.h"
#undef private
using namespace CEX; using namespace CEX::Prng; using CEX::Cipher::SymmetricKeySize; typedef std::vector<uint8_t> Bytes; typedef SecureVector<uint8_t> SBytes;
// the byte stream: consecutive calls return consecutive bytes of it; mode 0/1: the low/high byte of each position, 2: arbitrary contents
struct Src { int mode=2; size_t pos=0; Bytes g; uint8_t next(){ size_t p=pos++; if(mode==0) return (uint8_t)p; if(mode==1) return (uint8_t)(p>>8); while(g.size()<=p){ uint8_t b[64]; sym_bytes(b,64,"g"); g.insert(g.end(),b,b+64); } return g[p]; } };
static Src* S;
struct Gen:IPrng { const Enumeration::Prngs Enumeral() override { return (Enumeration::Prngs)0; } const std::string Name() override { return std::string("r"); }
  template<class A> void fill(A&o,size_t f,size_t l){ for(size_t i=0;i<l;i++) o[f+i]=S->next(); } void Generate(Bytes&o,size_t f,size_t l) override { fill(o,f,l); } void Generate(SBytes&o,size_t f,size_t l) override { fill(o,f,l); } void Generate(Bytes&o) override { fill(o,0,o.size()); } void Generate(SBytes&o) override { fill(o,0,o.size()); }
  uint16_t NextUInt16() override { return 0; } uint32_t NextUInt32() override { return 0; } uint64_t NextUInt64() override { return 0; } void Reset() override {} };
struct Base:PrngBase { Base():PrngBase(Enumeration::Prngs::BCR,"b"){} Gen g; void Generate(Bytes&o,size_t f,size_t l) override { g.fill(o,f,l); } void Generate(SBytes&o,size_t f,size_t l) override { g.fill(o,f,l); } void Generate(Bytes&o) override { g.fill(o,0,o.size()); } void Generate(SBytes&o) override { g.fill(o,0,o.size()); } void Reset() override {} };
struct Drb:Drbg::IDrbg { bool f=false; size_t z=0; const bool&CyclicReseed() override { return f; } const Enumeration::Drbgs Enumeral() override { return (Enumeration::Drbgs)0; } const bool IsInitialized() override { return true; } const std::vector<SymmetricKeySize> LegalKeySizes() override { return std::vector<SymmetricKeySize>(3,SymmetricKeySize(32,16,0)); } const uint64_t MaxOutputSize() override { return ~0ull; } const size_t MaxRequestSize() override { return 1<<20; } const size_t MaxReseedCount() override { return 1<<20; } const std::string Name() override { return std::string("d"); } size_t&ReseedThreshold() override { return z; } const size_t SecurityStrength() override { return 256; }
  Gen g; void Generate(Bytes&o) override { g.fill(o,0,o.size()); } void Generate(SBytes&o) override { g.fill(o,0,o.size()); } void Generate(Bytes&o,size_t f,size_t l) override { g.fill(o,f,l); } void Generate(SBytes&o,size_t f,size_t l) override { g.fill(o,f,l); } void Initialize(Cipher::ISymmetricKey&) override {} void Update(const Bytes&) override {} void Update(const SBytes&) override {} };
struct Prv:Provider::IProvider { const Enumeration::Providers Enumeral() override { return Enumeration::Providers::CSP; } const bool IsAvailable() override { return true; } const std::string Name() override { return std::string("p"); } template<class A> void z(A&o,size_t f,size_t l){ for(size_t i=0;i<l;i++) o[f+i]=(uint8_t)(i*7+1); } void Generate(Bytes&o) override { z(o,0,o.size()); } void Generate(SBytes&o) override { z(o,0,o.size()); } void Generate(Bytes&o,size_t f,size_t l) override { z(o,f,l); } void Generate(SBytes&o,size_t f,size_t l) override { z(o,f,l); } uint16_t NextUInt16() override { return 0; } uint32_t NextUInt32() override { return 0; } uint64_t NextUInt64() override { return 0; } void Reset() override {} };
namespace CEX { namespace Helper { IPrng* PrngFromName::GetInstance(Prngs,Providers){ return new Gen; } Provider::IProvider* ProviderFromName::GetInstance(Providers){ return new Prv; } } }
// a history of requests; which stream position every output byte comes from is read off two labelled streams, then decided for all contents
template<class A,class R> static void hist(std::function<R*()> mk,std::vector<size_t> len,size_t off){ size_t tot=0; for(size_t n:len) tot+=n; Bytes lab[2],out,ref; 
  for(int m=0;m<3;m++){ Src s; s.mode=m; S=&s; std::unique_ptr<R> r(mk()); Bytes acc; for(size_t n:len){ A o(off+n+2); for(auto&c:o) c=0xA5; r->Generate(o,off,n); for(size_t i=0;i<off;i++) sym_assert(o[i]==0xA5,"bytes before the offset are untouched"); sym_assert(o[off+n]==0xA5&&o[off+n+1]==0xA5,"bytes behind the range are untouched"); acc.insert(acc.end(),o.begin()+off,o.begin()+off+n); } if(m<2) lab[m]=acc; else { out=acc; 
    long last=-1; ref.resize(tot); for(size_t i=0;i<tot;i++){ long p=lab[0][i]|lab[1][i]<<8; sym_assert(p>last,"generator output is used in order and never twice"); last=p; sym_assert((size_t)p<s.g.size(),"the byte comes from the generator"); ref[i]=s.g[p]; } } }
  sym_assert_eq(out.data(),ref.data(),tot,"every byte requested is generator output"); sym_reach(1); }
template<class R> static std::function<R*()> mkR();
template<> std::function<SecureRandom*()> mkR(){ return []{ return new SecureRandom(Enumeration::Prngs::BCR,Enumeration::Providers::CSP); }; }
template<class R> static R* swapGen(R*r){ r->m_rngGenerator.reset(new Drb); S->pos=0; r->Reset(); return r; }
template<> std::function<BCR*()> mkR(){ return []{ return swapGen(new BCR(Enumeration::Providers::CSP)); }; }
template<> std::function<CSR*()> mkR(){ return []{ return swapGen(new CSR(Enumeration::ShakeModes::SHAKE256,Enumeration::Providers::CSP)); }; }
template<> std::function<HCR*()> mkR(){ return []{ return swapGen(new HCR(Enumeration::SHA2Digests::SHA2256,Enumeration::Providers::CSP)); }; }
static std::vector<size_t> hs(){ static const std::vector<std::vector<size_t>> H={{1,5,0,9},{1000,23,1,40},{1000,30,7},{1024,3},{1025,1023,2},{2048,1},{3,2060},{1023,1,1}}; return H[sym_choose(0,H.size()-1)]; }
template<class A,class R> static void stream(){ size_t off=sym_choose(0,1)*3; hist<A,R>(mkR<R>(),hs(),off); }
ENTRY c27_sr(){ stream<Bytes,SecureRandom>(); } //@ reach=1 b="SecureRandom, standard vectors: 8 request histories around the 1024-byte buffer, offsets 0 and 3, arbitrary engine output"
ENTRY c27_sr_sec(){ stream<SBytes,SecureRandom>(); } //@ reach=1 b="SecureRandom, secure vectors"
ENTRY c27_bcr(){ stream<Bytes,BCR>(); } //@ reach=1 b="BCR, standard vectors, arbitrary generator output"
ENTRY c27_bcr_sec(){ stream<SBytes,BCR>(); } //@ reach=1 b="BCR, secure vectors"
ENTRY c27_csr(){ stream<Bytes,CSR>(); } //@ reach=1 b="CSR, standard vectors"
ENTRY c27_csr_sec(){ stream<SBytes,CSR>(); } //@ reach=1 b="CSR, secure vectors"
ENTRY c27_hcr(){ stream<Bytes,HCR>(); } //@ reach=1 b="HCR, standard vectors"
ENTRY c27_hcr_sec(){ stream<SBytes,HCR>(); } //@ reach=1 b="HCR, secure vectors"
// ranged values: the draws are arbitrary; after three refused ones the stream is all zero, which every range admits
template<class T> static void range(std::function<T(SecureRandom&,T,T)> f,bool two){ T mx,mn=0; sym_bytes(&mx,sizeof mx,"max"); if(two) sym_bytes(&mn,sizeof mn,"min"); sym_assume(mx>=1&&mx>=mn); Src s; S=&s; SecureRandom r(Enumeration::Prngs::BCR,Enumeration::Providers::CSP); s.g.resize(1024,0); sym_bytes(s.g.data(),2*sizeof(T),"draw"); for(size_t i=3*sizeof(T);i<1024;i++) s.g[i]=(uint8_t)(i%255+1); T v=f(r,mx,mn); sym_assert(v<=mx,"not above the maximum"); sym_assert(v>=mn,"not below the minimum"); uint8_t q=r.NextUChar(); const size_t Z=sizeof(T); sym_assert(q==s.g[Z]||q==s.g[2*Z]||q==s.g[3*Z],"a zero draw is accepted"); sym_reach(1); }
ENTRY c27_i16_max(){ range<int16_t>([](SecureRandom&r,int16_t a,int16_t){ return r.NextInt16(a); },false); } //@ reach=1 b="NextInt16(max): every maximum of at least 1, two arbitrary draws, then zeros"
ENTRY c27_i16_range(){ range<int16_t>([](SecureRandom&r,int16_t a,int16_t b){ return r.NextInt16(a,b); },true); } //@ reach=1 b="NextInt16(max,min): every pair with max at least 1 and min, two arbitrary draws, then zeros"
ENTRY c27_u16_max(){ range<uint16_t>([](SecureRandom&r,uint16_t a,uint16_t){ return r.NextUInt16(a); },false); } //@ reach=1 b="NextUInt16(max): every maximum of at least 1, two arbitrary draws, then zeros"
ENTRY c27_u16_range(){ range<uint16_t>([](SecureRandom&r,uint16_t a,uint16_t b){ return r.NextUInt16(a,b); },true); } //@ reach=1 b="NextUInt16(max,min): every pair with max at least 1 and min, two arbitrary draws, then zeros"
ENTRY c27_i32_max(){ range<int32_t>([](SecureRandom&r,int32_t a,int32_t){ return r.NextInt32(a); },false); } //@ reach=1 b="NextInt32(max): every maximum of at least 1, two arbitrary draws, then zeros"
ENTRY c27_i32_range(){ range<int32_t>([](SecureRandom&r,int32_t a,int32_t b){ return r.NextInt32(a,b); },true); } //@ reach=1 b="NextInt32(max,min): every pair with max at least 1 and min, two arbitrary draws, then zeros"
ENTRY c27_u32_max(){ range<uint32_t>([](SecureRandom&r,uint32_t a,uint32_t){ return r.NextUInt32(a); },false); } //@ reach=1 b="NextUInt32(max): every maximum of at least 1, two arbitrary draws, then zeros"
ENTRY c27_u32_range(){ range<uint32_t>([](SecureRandom&r,uint32_t a,uint32_t b){ return r.NextUInt32(a,b); },true); } //@ reach=1 b="NextUInt32(max,min): every pair with max at least 1 and min, two arbitrary draws, then zeros"
ENTRY c27_i64_max(){ range<int64_t>([](SecureRandom&r,int64_t a,int64_t){ return r.NextInt64(a); },false); } //@ reach=1 b="NextInt64(max): every maximum of at least 1, two arbitrary draws, then zeros"
ENTRY c27_i64_range(){ range<int64_t>([](SecureRandom&r,int64_t a,int64_t b){ return r.NextInt64(a,b); },true); } //@ reach=1 b="NextInt64(max,min): every pair with max at least 1 and min, two arbitrary draws, then zeros"
ENTRY c27_u64_max(){ range<uint64_t>([](SecureRandom&r,uint64_t a,uint64_t){ return r.NextUInt64(a); },false); } //@ reach=1 b="NextUInt64(max): every maximum of at least 1, two arbitrary draws, then zeros"
ENTRY c27_u64_range(){ range<uint64_t>([](SecureRandom&r,uint64_t a,uint64_t b){ return r.NextUInt64(a,b); },true); } //@ reach=1 b="NextUInt64(max,min): every pair with max at least 1 and min, two arbitrary draws, then zeros"
// values and arrays are the little-endian reading of consecutive bytes
template<class T,class A> static void filled(SecureRandom&r,size_t off,size_t n,bool u){ A o(off+n+1); for(auto&x:o) x=(T)0x5A; Src&s=*S; r.Fill(o,off,n); s.next(); Bytes b(n*sizeof(T)); memcpy(b.data(),s.g.data(),b.size()); sym_assert_eq((uint8_t*)(o.data()+off),b.data(),b.size(),"Fill delivers the stream"); for(size_t i=0;i<off;i++) sym_assert(o[i]==(T)0x5A,"elements before the offset"); sym_assert(o[off+n]==(T)0x5A,"elements behind the range"); }
ENTRY c27_fill(){ int k=(int)sym_choose(0,4); size_t n=sym_choose(0,3),off=sym_choose(0,2); Src s; S=&s; SecureRandom r(Enumeration::Prngs::BCR,Enumeration::Providers::CSP); if(k==0) filled<uint16_t,std::vector<uint16_t>>(r,off,n,0); else if(k==1) filled<uint16_t,SecureVector<uint16_t>>(r,off,n,0); else if(k==2) filled<uint32_t,std::vector<uint32_t>>(r,off,n,0); else if(k==3) filled<uint64_t,std::vector<uint64_t>>(r,off,n,0); else { Gen g; std::vector<uint8_t> o(off+n+1,0x5A); ((IPrng&)g).Generate(o,off,n); sym_assert_eq(o.data()+off,s.g.data(),n,"Generate"); } sym_reach(1); } //@ reach=1 b="Fill of 16, 32 and 64-bit arrays: 0..3 elements at offsets 0..2"
ENTRY c27_next(){ Src s; S=&s; SecureRandom r(Enumeration::Prngs::BCR,Enumeration::Providers::CSP); uint8_t b[64]; uint16_t a=r.NextUInt16(); int16_t a2=r.NextInt16(); uint32_t c=r.NextUInt32(); int32_t c2=r.NextInt32(); uint64_t d=r.NextUInt64(); int64_t d2=r.NextInt64(); uint8_t e=r.NextUChar(); char e2=r.NextChar(); memcpy(b,&a,2); memcpy(b+2,&a2,2); memcpy(b+4,&c,4); memcpy(b+8,&c2,4); memcpy(b+12,&d,8); memcpy(b+20,&d2,8); b[28]=e; b[29]=(uint8_t)e2; sym_assert_eq(b,s.g.data(),30,"values are the little-endian reading of consecutive bytes"); sym_reach(1); } //@ reach=1 b="one value of each type in a row, arbitrary stream"
ENTRY c27_base(){ Src s; S=&s; Base r; uint8_t b[64]; uint16_t a=r.NextUInt16(); uint32_t c=r.NextUInt32(); uint64_t d=r.NextUInt64(); memcpy(b,&a,2); memcpy(b+2,&c,4); memcpy(b+6,&d,8); sym_assert_eq(b,s.g.data(),14,"PrngBase values are consecutive bytes"); sym_reach(1); } //@ reach=1 b="PrngBase: one value of each width"
