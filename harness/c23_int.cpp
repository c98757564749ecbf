// C23: integer helpers compute the stated function
//@t 90
#include "sym.h"
#include "IntegerTools.h"
using namespace CEX; using CEX::Tools::IntegerTools;
static size_t pickOff(){ int k=(int)sym_choose(0,2); return k==0?0:k==1?1:5; }
template<typename T> static T ref(const uint8_t*p,bool be){ T r=0; for(size_t i=0;i<sizeof(T);++i) r|=(T)((T)p[i]<<(8*(be?sizeof(T)-1-i:i))); return r; }
template<typename T> static void put(uint8_t*p,T v,bool be){ for(size_t i=0;i<sizeof(T);++i) p[i]=(uint8_t)(v>>(8*(be?sizeof(T)-1-i:i))); }
ENTRY c23_endian_read() { //@ reach=1 b="Be/LeBytesTo16/32/64 and raw forms, every value, offsets 0,1,5"
  size_t o=pickOff(); Bytes b=symBytes(o+9,"b"); const uint8_t*p=b.data()+o; const char*m="bytes to integer";
  sym_assert(IntegerTools::BeBytesTo16(b,o)==ref<uint16_t>(p,true),m); sym_assert(IntegerTools::BeBytesTo32(b,o)==ref<uint32_t>(p,true),m); sym_assert(IntegerTools::BeBytesTo64(b,o)==ref<uint64_t>(p,true),m);
  sym_assert(IntegerTools::LeBytesTo16(b,o)==ref<uint16_t>(p,false),m); sym_assert(IntegerTools::LeBytesTo32(b,o)==ref<uint32_t>(p,false),m); sym_assert(IntegerTools::LeBytesTo64(b,o)==ref<uint64_t>(p,false),m);
  sym_assert(IntegerTools::BeBytesTo16Raw(p)==ref<uint16_t>(p,true),m); sym_assert(IntegerTools::BeBytesTo32Raw(p)==ref<uint32_t>(p,true),m); sym_assert(IntegerTools::BeBytesTo64Raw(p)==ref<uint64_t>(p,true),m);
  sym_assert(IntegerTools::LeBytesTo16Raw(p)==ref<uint16_t>(p,false),m); sym_assert(IntegerTools::LeBytesTo32Raw(p)==ref<uint32_t>(p,false),m); sym_assert(IntegerTools::LeBytesTo64Raw(p)==ref<uint64_t>(p,false),m);
  size_t l=(size_t)sym_choose(1,8); uint64_t r=0; for(size_t i=0;i<l;++i) r|=(uint64_t)p[i]<<(8*i); sym_assert(IntegerTools::LeBytesTo64(b,o,l)==r,"partial 64"); if(l<=4) sym_assert(IntegerTools::LeBytesTo32(b,o,l)==(uint32_t)r,"partial 32"); sym_reach(1); }
ENTRY c23_endian_write() { //@ reach=1 b="Be/Le16/32/64ToBytes, raw and returning forms, every value, offsets 0,1,5, neighbours untouched"
  size_t o=pickOff(); uint64_t v=sym_u64("v"); Bytes b0=symBytes(o+10,"b"); bool be=sym_choose(0,1); int w=(int)sym_choose(0,2); Bytes b=b0,e=b0,r=b0,x; uint8_t*p=r.data()+o;
  if(w==0){ put<uint16_t>(e.data()+o,(uint16_t)v,be); if(be){ IntegerTools::Be16ToBytes((uint16_t)v,b,o); IntegerTools::Be16ToBytesRaw((uint16_t)v,p); x=IntegerTools::Be16ToBytes<Bytes>((uint16_t)v);} else { IntegerTools::Le16ToBytes((uint16_t)v,b,o); IntegerTools::Le16ToBytesRaw((uint16_t)v,p); x=IntegerTools::Le16ToBytes<Bytes>((uint16_t)v);} }
  else if(w==1){ put<uint32_t>(e.data()+o,(uint32_t)v,be); if(be){ IntegerTools::Be32ToBytes((uint32_t)v,b,o); IntegerTools::Be32ToBytesRaw((uint32_t)v,p); x=IntegerTools::Be32ToBytes<Bytes>((uint32_t)v);} else { IntegerTools::Le32ToBytes((uint32_t)v,b,o); IntegerTools::Le32ToBytesRaw((uint32_t)v,p); x=IntegerTools::Le32ToBytes<Bytes>((uint32_t)v);} }
  else { put<uint64_t>(e.data()+o,v,be); if(be){ IntegerTools::Be64ToBytes(v,b,o); IntegerTools::Be64ToBytesRaw(v,p); x=IntegerTools::Be64ToBytes<Bytes>(v);} else { IntegerTools::Le64ToBytes(v,b,o); IntegerTools::Le64ToBytesRaw(v,p); x=IntegerTools::Le64ToBytes<Bytes>(v);} }
  assertEq(b,e,"integer to bytes"); assertEq(r,e,"integer to bytes, raw"); sym_assert(x.size()==(2u<<w),"returned size"); sym_assert_eq(x.data(),e.data()+o,2u<<w,"integer to returned bytes"); sym_reach(1); }
template<typename T> static void blocks(bool be,bool to){ // to: bytes->words
  size_t n=(size_t)sym_choose(0,5),io=pickOff(),oo=pickOff();
  if(to){ Bytes in=symBytes(io+n*sizeof(T)+1,"in"); std::vector<T> out(oo+n+1),e(oo+n+1); for(size_t i=0;i<n;++i) e[oo+i]=ref<T>(in.data()+io+i*sizeof(T),be); if(be) IntegerTools::BlockToBe(in,io,out,oo,n*sizeof(T)); else IntegerTools::BlockToLe(in,io,out,oo,n*sizeof(T)); sym_assert_eq(out.data(),e.data(),e.size()*sizeof(T),"bytes to words"); sym_reach(1); }
  else { std::vector<T> in(io+n+1); sym_bytes(in.data(),in.size()*sizeof(T),"in"); Bytes out=symBytes(oo+n*sizeof(T)+1,"out"),e=out; for(size_t i=0;i<n;++i) put<T>(e.data()+oo+i*sizeof(T),in[io+i],be); if(be) IntegerTools::BeToBlock(in,io,out,oo,n*sizeof(T)); else IntegerTools::LeToBlock(in,io,out,oo,n*sizeof(T)); assertEq(out,e,"words to bytes"); sym_reach(2); } }
ENTRY c23_block32() { bool a=sym_choose(0,1),b=sym_choose(0,1); blocks<uint32_t>(a,b); } //@ reach=1,2 b="BlockToBe/Le and Be/LeToBlock on 0..5 32-bit words, every content"
ENTRY c23_block64() { bool a=sym_choose(0,1),b=sym_choose(0,1); blocks<uint64_t>(a,b); } //@ reach=1,2 b="BlockToBe/Le and Be/LeToBlock on 0..5 64-bit words, every content"
template<typename T,typename F> static void wordsOut(size_t n,bool be,F f){ size_t io=pickOff(),oo=pickOff(); std::vector<T> in(io+n+1); sym_bytes(in.data(),in.size()*sizeof(T),"in"); Bytes out=symBytes(oo+n*sizeof(T)+1,"out"),e=out; for(size_t i=0;i<n;++i) put<T>(e.data()+oo+i*sizeof(T),in[io+i],be); f(in,io,out,oo); assertEq(out,e,"word array to bytes"); sym_reach(1); }
template<typename T,typename F> static void wordsIn(size_t n,bool be,F f){ size_t io=pickOff(),oo=pickOff(); Bytes in=symBytes(io+n*sizeof(T)+1,"in"); std::vector<T> out(oo+n+1); sym_bytes(out.data(),out.size()*sizeof(T),"out"); std::vector<T> e=out; for(size_t i=0;i<n;++i) e[oo+i]=ref<T>(in.data()+io+i*sizeof(T),be); f(in,io,out,oo); sym_assert_eq(out.data(),e.data(),e.size()*sizeof(T),"bytes to word array"); sym_reach(1); }
ENTRY c23_wordblocks() { //@ reach=1 b="Be/LeUL256, Le/BeULL512, LeULL256/1024 and their inverses, every content, offsets 0,1,5"
  switch(sym_choose(0,9)){
  case 0: wordsOut<uint32_t>(8,true,[](auto&i,size_t a,auto&o,size_t b){ IntegerTools::BeUL256ToBlock(i,a,o,b); }); break;
  case 1: wordsOut<uint64_t>(8,true,[](auto&i,size_t a,auto&o,size_t b){ IntegerTools::BeULL512ToBlock(i,a,o,b); }); break;
  case 2: wordsOut<uint32_t>(8,false,[](auto&i,size_t a,auto&o,size_t b){ IntegerTools::LeUL256ToBlock(i,a,o,b); }); break;
  case 3: wordsOut<uint64_t>(4,false,[](auto&i,size_t a,auto&o,size_t b){ IntegerTools::LeULL256ToBlock(i,a,o,b); }); break;
  case 4: wordsOut<uint64_t>(8,false,[](auto&i,size_t a,auto&o,size_t b){ IntegerTools::LeULL512ToBlock(i,a,o,b); }); break;
  case 5: wordsOut<uint64_t>(16,false,[](auto&i,size_t a,auto&o,size_t b){ IntegerTools::LeULL1024ToBlock(i,a,o,b); }); break;
  case 6: wordsIn<uint32_t>(16,false,[](auto&i,size_t a,auto&o,size_t b){ IntegerTools::LeBytesToUL512(i,a,o,b); }); break;
  case 7: wordsIn<uint64_t>(4,false,[](auto&i,size_t a,auto&o,size_t b){ IntegerTools::LeBytesToULL256(i,a,o,b); }); break;
  case 8: wordsIn<uint64_t>(8,false,[](auto&i,size_t a,auto&o,size_t b){ IntegerTools::LeBytesToULL512(i,a,o,b); }); break;
  case 9: wordsIn<uint64_t>(16,false,[](auto&i,size_t a,auto&o,size_t b){ IntegerTools::LeBytesToULL1024(i,a,o,b); }); break; } }
ENTRY c23_rotate() { //@ reach=1 b="RotL/RotR/RotFL/RotFR 32 and 64, every value, every shift 1..31 / 1..63"
  uint64_t v=sym_u64("v"); uint32_t s=(uint32_t)sym_u64("s"); uint32_t x=(uint32_t)v; sym_assume(s>=1&&s<=31); 
  sym_assert(IntegerTools::RotFL32(x,s)==((x<<s)|(x>>(32-s))),"rotl32 fast"); sym_assert(IntegerTools::RotFR32(x,s)==((x>>s)|(x<<(32-s))),"rotr32 fast");
  sym_assert(IntegerTools::RotL32(x,s)==((x<<s)|(x>>(32-s))),"rotl32"); sym_assert(IntegerTools::RotR32(x,s)==((x>>s)|(x<<(32-s))),"rotr32");
  uint32_t t=(uint32_t)sym_u64("t"); sym_assume(t>=1&&t<=63);
  sym_assert(IntegerTools::RotFL64(v,t)==((v<<t)|(v>>(64-t))),"rotl64 fast"); sym_assert(IntegerTools::RotFR64(v,t)==((v>>t)|(v<<(64-t))),"rotr64 fast");
  sym_assert(IntegerTools::RotL64(v,t)==((v<<t)|(v>>(64-t))),"rotl64"); sym_assert(IntegerTools::RotR64(v,t)==((v>>t)|(v<<(64-t))),"rotr64"); sym_reach(1); }
ENTRY c23_scalar() { //@ reach=1 b="Abs, Crop, Parity, Max, Min, IsPowerOf2, ModPowerOf2, SaturatingSubtract, GetByte, every 64-bit value"
  uint64_t a=sym_u64("a"),b=sym_u64("b");
  sym_assert(IntegerTools::Abs(a,b)==(a>b?a-b:b-a),"abs"); sym_assert(IntegerTools::Max(a,b)==(a>b?a:b),"max"); sym_assert(IntegerTools::Min(a,b)==(a<b?a:b),"min");
  sym_assert(IntegerTools::SaturatingSubtract(a,b)==(a>b?a-b:0),"saturating subtract");
  size_t n=(size_t)sym_choose(0,65); uint64_t m=n>=64?~0ull:((1ull<<n)-1); sym_assert(IntegerTools::Crop(a,n)==(a&m),"crop"); 
  if(n<64) sym_assert(IntegerTools::ModPowerOf2(a,(uint64_t)1<<n)==(a%((uint64_t)1<<n)),"mod power of two");
  if(n==0){ uint64_t p=0; for(int i=0;i<64;++i) p^=(a>>i)&1; sym_assert(IntegerTools::Parity(a)==p,"parity"); unsigned c=0; for(int i=0;i<64;++i) c+=(unsigned)((b>>i)&1); sym_assert(IntegerTools::IsPowerOf2(b)==(c==1),"is power of two"); }
  if(n<8) sym_assert(IntegerTools::GetByte(a,n)==(uint8_t)(a>>(56-8*n)),"get byte 64"); if(n<4) sym_assert(IntegerTools::GetByte((uint32_t)a,n)==(uint8_t)((uint32_t)a>>(24-8*n)),"get byte 32"); sym_reach(1); }
ENTRY c23_shiftleft() { //@ reach=1 b="ShiftLeft of 1..33 bytes, every content"
  size_t n=(size_t)sym_choose(1,33); Bytes in=symBytes(n,"in"),out(n),e(n); uint32_t c=IntegerTools::ShiftLeft(in,out); for(size_t i=0;i<n;++i) e[i]=(uint8_t)((in[i]<<1)|(i+1<n?in[i+1]>>7:0)); assertEq(out,e,"shift left by one bit"); sym_assert(c==(uint32_t)(in[0]>>7),"carry out"); sym_reach(1); }
ENTRY c23_clear() { //@ reach=1 b="IntegerTools::Clear and ClearArray erase every byte, 0..70 elements"
  size_t n=(size_t)sym_choose(0,70); Bytes v=symBytes(n,"v"),z(n); IntegerTools::Clear(v); assertEq(v,z,"clear"); std::vector<uint64_t> w(n); if(n) sym_bytes(w.data(),8*n,"w"); IntegerTools::Clear(w); for(auto x:w) sym_assert(x==0,"clear words"); std::array<std::array<uint32_t,5>,3> a; sym_bytes(&a,sizeof(a),"a"); IntegerTools::ClearArray(a); for(auto&r:a) for(auto x:r) sym_assert(x==0,"clear array"); sym_reach(1); }
ENTRY c23_hex() { //@ reach=1 b="IntToHex of every 8/32/64-bit value"
  uint64_t v=sym_u64("v"); std::string s=IntegerTools::IntToHex<uint64_t>(v); sym_assert(s.size()==16,"hex length"); for(size_t i=0;i<16;++i){ uint8_t d=(v>>(60-4*i))&15; uint8_t c=(uint8_t)s[i]; sym_assert(c==(d<10?'0'+d:'A'+d-10),"hex digit"); } 
  std::string q=IntegerTools::IntToHex<uint8_t>((uint8_t)v); sym_assert(q.size()==2,"hex length 8"); for(size_t i=0;i<2;++i){ uint8_t d=((uint8_t)v>>(4-4*i))&15; uint8_t c=(uint8_t)q[i]; sym_assert(c==(d<10?'0'+d:'A'+d-10),"hex digit"); } sym_reach(1); }
