// C04: counter arithmetic
//@t 60
#include "sym.h"
#include "IntegerTools.h"
#include "ULong256.h"
using namespace CEX; using CEX::Tools::IntegerTools;
// reference: Out = In + value over n bytes, most significant byte first, modulo 2^(8n)
static void refBe(uint8_t* p,size_t n,uint64_t v){ unsigned carry=0; for(size_t k=0;k<n;++k){ uint8_t a=k<8?(uint8_t)(v>>(8*k)):0; unsigned s=(unsigned)p[n-1-k]+a+carry; p[n-1-k]=(uint8_t)s; carry=s>>8; } }
static void refLe(uint8_t* p,size_t n,uint64_t v){ unsigned carry=0; for(size_t k=0;k<n;++k){ uint8_t a=k<8?(uint8_t)(v>>(8*k)):0; unsigned s=(unsigned)p[k]+a+carry; p[k]=(uint8_t)s; carry=s>>8; } }
ENTRY c04_be_incr() { //@ reach=1 b="BeIncrement8(vector), 1..17 and 32 bytes, every value"
  size_t n=(size_t)sym_choose(1,18); if(n==18) n=32; Bytes c=symBytes(n,"ctr"), d=c;
  IntegerTools::BeIncrement8(c); refBe(d.data(),n,1); assertEq(c,d,"BeIncrement8 adds one"); sym_reach(1);
}
ENTRY c04_be_incr_range() { //@ reach=1 b="BeIncrement8(vector,offset,length), length 1..12, offset 0..3, every value"
  size_t n=(size_t)sym_choose(1,12),o=(size_t)sym_choose(0,3); Bytes c=symBytes(n+o+2,"ctr"), d=c;
  IntegerTools::BeIncrement8(c,o,n); refBe(d.data()+o,n,1); assertEq(c,d,"BeIncrement8 range adds one and touches only the range"); sym_reach(1);
}
ENTRY c04_le_incr() { //@ reach=1 b="LeIncrement, both forms, 1..17 and 32 bytes, every value"
  size_t n=(size_t)sym_choose(1,18); if(n==18) n=32; Bytes c=symBytes(n,"ctr"), d=c; bool part=sym_choose(0,1)!=0;
  if(part){ c=symBytes(n+3,"ctr2"); d=c; IntegerTools::LeIncrement(c,n); refLe(d.data(),n,1); } else { IntegerTools::LeIncrement(c); refLe(d.data(),n,1); }
  assertEq(c,d,"LeIncrement adds one"); sym_reach(1);
}
template<typename T> static void incBe(){
  T v=(T)sym_u64("value"); size_t n=(size_t)sym_choose(1,17); int form=(int)sym_choose(0,3);
  Bytes in=symBytes(n,"ctr");
  if(form==0){ Bytes c=in,d=in; IntegerTools::BeIncrease8(c,v); refBe(d.data(),n,v); assertEq(c,d,"BeIncrease8 in place adds the value"); }
  else if(form==1){ Bytes c(n),d=in; IntegerTools::BeIncrease8(in,c,v); refBe(d.data(),n,v); assertEq(c,d,"BeIncrease8 adds the value"); }
  else if(form==2){ size_t o=(size_t)sym_choose(0,2); Bytes c=symBytes(o+n+1,"out"),d=c; IntegerTools::BeIncrease8(in,c,o,v); for(size_t i=0;i<n;++i) d[o+i]=in[i]; refBe(d.data()+o,n,v); assertEq(c,d,"BeIncrease8 at an offset adds the value, other bytes untouched"); }
  else { size_t o=(size_t)sym_choose(0,2); Bytes c=symBytes(o+n+1,"out"),d=c; IntegerTools::BeIncrease8(in,c,o,n,v); for(size_t i=0;i<n;++i) d[o+i]=in[i]; refBe(d.data()+o,n,v); assertEq(c,d,"BeIncrease8 at an offset and length adds the value, other bytes untouched"); }
  sym_reach(1);
}
template<typename T> static void incLe(){
  T v=(T)sym_u64("value"); size_t n=(size_t)sym_choose(1,17); int form=(int)sym_choose(0,3);
  Bytes in=symBytes(n,"ctr");
  if(form==0){ Bytes c=in,d=in; IntegerTools::LeIncrease8(c,v); refLe(d.data(),n,v); assertEq(c,d,"LeIncrease8 in place adds the value"); }
  else if(form==1){ Bytes c(n),d=in; IntegerTools::LeIncrease8(in,c,v); refLe(d.data(),n,v); assertEq(c,d,"LeIncrease8 adds the value"); }
  else if(form==2){ size_t o=(size_t)sym_choose(0,2); Bytes c=symBytes(o+n+1,"out"),d=c; IntegerTools::LeIncrease8(in,c,o,v); for(size_t i=0;i<n;++i) d[o+i]=in[i]; refLe(d.data()+o,n,v); assertEq(c,d,"LeIncrease8 at an offset adds the value, other bytes untouched"); }
  else { size_t o=(size_t)sym_choose(0,2); Bytes c=symBytes(o+n+1,"out"),d=c; IntegerTools::LeIncrease8(in,c,o,n,v); for(size_t i=0;i<n;++i) d[o+i]=in[i]; refLe(d.data()+o,n,v); assertEq(c,d,"LeIncrease8 at an offset and length adds the value, other bytes untouched"); }
  sym_reach(1);
}
ENTRY c04_be_inc32() { incBe<uint32_t>(); } //@ reach=1 b="BeIncrease8<uint32_t>, four forms, counters of 1..17 bytes, offsets 0..2, every counter and every value"
ENTRY c04_be_inc64() { incBe<uint64_t>(); } //@ reach=1 b="BeIncrease8<uint64_t>, as above"
ENTRY c04_be_inc16() { incBe<uint16_t>(); } //@ reach=1 b="BeIncrease8<uint16_t>, as above"
ENTRY c04_le_inc32() { incLe<uint32_t>(); } //@ reach=1 b="LeIncrease8<uint32_t>, four forms, counters of 1..17 bytes, offsets 0..2, every counter and every value"
ENTRY c04_le_inc64() { incLe<uint64_t>(); } //@ reach=1 b="LeIncrease8<uint64_t>, as above"
ENTRY c04_le_inc16() { incLe<uint16_t>(); } //@ reach=1 b="LeIncrease8<uint16_t>, as above"
template<typename W> static void words(){
  std::vector<W> a(2),o(2); sym_bytes(a.data(),2*sizeof(W),"ctr"); typedef unsigned __int128 u128; const unsigned B=8*sizeof(W);
  W lo=a[0],hi=a[1]; size_t n=(size_t)(W)sym_u64("length"); int form=(int)sym_choose(0,2);
  u128 x=((u128)hi<<B)|lo; u128 m=B==64?~(u128)0:(((u128)1<<(2*B))-1); u128 y=(x+(form==0?1:n))&m;
  if(form==0){ IntegerTools::LeIncrementW(a); o=a; } else if(form==1){ IntegerTools::LeIncreaseW(a,n); o=a; } else IntegerTools::LeIncreaseW(a,o,n);
  sym_assert(o[0]==(W)y,"low word of the two-word counter"); sym_assert(o[1]==(W)(y>>B),"high word of the two-word counter"); sym_reach(1);
}
ENTRY c04_words32() { words<uint32_t>(); } //@ reach=1 b="LeIncrementW / LeIncreaseW on two 32-bit words, every counter, every 32-bit amount"
ENTRY c04_words64() { words<uint64_t>(); } //@ reach=1 b="LeIncrementW / LeIncreaseW on two 64-bit words, every counter, every 64-bit amount"
