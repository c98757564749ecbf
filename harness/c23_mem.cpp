// C23: memory helpers affect exactly the requested range
//@t 90
#include "sym.h"
#include "MemoryTools.h"
using namespace CEX; using CEX::Tools::MemoryTools;
static const int LENS[]={0,1,2,3,5,7,8,9,15,16,17,24,31,32,33,40,47,48,63,64,65,79,96,97,127,128,131};
static size_t pickLen(size_t mul=1,size_t lo=0){ size_t i=(size_t)sym_choose((int64_t)lo,sizeof(LENS)/sizeof(int)-1); return LENS[i]/mul*mul; }
static size_t pickOff(){ int k=(int)sym_choose(0,2); return k==0?0:k==1?1:5; }
template<typename T> static std::vector<T> symVec(size_t n,const char* nm){ std::vector<T> v(n); if(n) sym_bytes(v.data(),n*sizeof(T),nm); return v; }
template<typename T> static void eqVec(const std::vector<T>&a,const std::vector<T>&b,const char*m){ sym_assert(a.size()==b.size(),m); sym_assert_eq(a.data(),b.data(),a.size()*sizeof(T),m); }
// op: 0 copy 1 xor 2 and 3 or 4 move ; lengths in bytes, offsets in elements
template<typename A,typename B> static void two(int op,size_t len,size_t io,size_t oo){
  size_t ie=(len+sizeof(A)-1)/sizeof(A), oe=(len+sizeof(B)-1)/sizeof(B);
  std::vector<A> in=symVec<A>(io+ie+1,"in"),in0=in; std::vector<B> out=symVec<B>(oo+oe+1,"out"),ex=out;
  const uint8_t* s=(const uint8_t*)(in.data()+io); uint8_t* d=(uint8_t*)(ex.data()+oo);
  for(size_t i=0;i<len;++i) d[i]= op==1?d[i]^s[i]:op==2?d[i]&s[i]:op==3?d[i]|s[i]:s[i];
  switch(op){ case 0: MemoryTools::Copy(in,io,out,oo,len); break; case 1: MemoryTools::XOR(in,io,out,oo,len); break; case 2: MemoryTools::AND(in,io,out,oo,len); break; case 3: MemoryTools::OR(in,io,out,oo,len); break; case 4: MemoryTools::Move(in,io,out,oo,len); break; }
  eqVec(out,ex,"the requested range of the destination holds the result and nothing else changed"); eqVec(in,in0,"the source is unchanged"); sym_reach(1);
}
ENTRY c23_copy8() { size_t l=pickLen(),a=pickOff(),b=pickOff(); two<uint8_t,uint8_t>(0,l,a,b); } //@ reach=1 b="Copy bytes: 27 lengths in 0..131, offsets 0,1,5, all contents"
ENTRY c23_copyT() { int k=(int)sym_choose(0,4); size_t a=pickOff(),b=pickOff(); if(k==0) two<uint32_t,uint32_t>(0,pickLen(4),a,b); else if(k==1) two<uint64_t,uint64_t>(0,pickLen(8),a,b); else if(k==2) two<uint8_t,uint64_t>(0,pickLen(8),a,b); else if(k==3) two<uint64_t,uint8_t>(0,pickLen(8),a,b); else two<uint8_t,uint32_t>(0,pickLen(4),a,b); } //@ reach=1 b="Copy between vectors of 8/32/64-bit integers, lengths as above rounded to the element"
ENTRY c23_xor8() { size_t l=pickLen(1,1),a=pickOff(),b=pickOff(); two<uint8_t,uint8_t>(1,l,a,b); } //@ reach=1 b="XOR bytes: 26 lengths in 1..131, offsets 0,1,5"
ENTRY c23_xorT() { int k=(int)sym_choose(0,3); size_t a=pickOff(),b=pickOff(); if(k==0) two<uint32_t,uint32_t>(1,pickLen(4,6),a,b); else if(k==1) two<uint64_t,uint64_t>(1,pickLen(8,6),a,b); else if(k==2) two<uint8_t,uint64_t>(1,pickLen(8,6),a,b); else two<uint8_t,uint32_t>(1,pickLen(4,6),a,b); } //@ reach=1 b="XOR between 8/32/64-bit vectors, lengths to 131"
ENTRY c23_and8() { size_t l=pickLen(),a=pickOff(),b=pickOff(); two<uint8_t,uint8_t>(2,l,a,b); } //@ reach=1 b="AND bytes: 27 lengths in 0..131, offsets 0,1,5"
ENTRY c23_or8() { size_t l=pickLen(),a=pickOff(),b=pickOff(); two<uint8_t,uint8_t>(3,l,a,b); } //@ reach=1 b="OR bytes: 27 lengths in 0..131, offsets 0,1,5"
ENTRY c23_andorT() { int op=(int)sym_choose(2,3); size_t a=pickOff(); if(sym_choose(0,1)) two<uint32_t,uint32_t>(op,pickLen(4),a,1); else two<uint64_t,uint64_t>(op,pickLen(8),a,1); } //@ reach=1 b="AND/OR on 32/64-bit vectors, lengths to 128 bytes"
ENTRY c23_move8() { size_t l=pickLen(),a=pickOff(),b=pickOff(); two<uint8_t,uint8_t>(4,l,a,b); } //@ reach=1 b="Move bytes between vectors"
ENTRY c23_move_overlap() { //@ reach=1 b="Move inside one vector, overlapping both ways, lengths 0..131"
  size_t l=pickLen(),a=pickOff(),b=pickOff(); Bytes v=symBytes(l+8,"v"),e=v,t(v.begin()+a,v.begin()+a+l); for(size_t i=0;i<l;++i) e[b+i]=t[i]; MemoryTools::Move(v,a,v,b,l); assertEq(v,e,"overlapping move"); sym_reach(1); }
template<typename T> static void clearSet(){ size_t l=pickLen(sizeof(T)),o=pickOff(); std::vector<T> v=symVec<T>(o+l/sizeof(T)+2,"v"),e=v; uint8_t val=0; int k=(int)sym_choose(0,1);
  if(k==0) MemoryTools::Clear(v,o,l); else { val=(uint8_t)sym_u64("value"); MemoryTools::SetValue(v,o,l,val); }
  uint8_t* d=(uint8_t*)(e.data()+o); for(size_t i=0;i<l;++i) d[i]=val; eqVec(v,e,"clear/set fills exactly the requested range"); sym_reach(1+k); }
ENTRY c23_clear8() { clearSet<uint8_t>(); } //@ reach=1,2 b="Clear and SetValue on bytes, lengths 0..131, offsets 0,1,5, any value"
ENTRY c23_clear32() { clearSet<uint32_t>(); } //@ reach=1,2 b="Clear and SetValue on 32-bit vectors"
ENTRY c23_clear64() { clearSet<uint64_t>(); } //@ reach=1,2 b="Clear and SetValue on 64-bit vectors"
ENTRY c23_raw() { //@ reach=1,2,3 b="ClearRaw, CopyRaw, XorRaw on pointers, lengths 1..131"
  size_t l=pickLen(1,1),a=pickOff(),b=pickOff(); Bytes in=symBytes(a+l+1,"in"),out=symBytes(b+l+1,"out"),e=out; int k=(int)sym_choose(0,2);
  for(size_t i=0;i<l;++i) e[b+i]=k==0?0:k==1?in[a+i]:(uint8_t)(e[b+i]^in[a+i]);
  if(k==0) MemoryTools::ClearRaw(out.data()+b,l); else if(k==1) MemoryTools::CopyRaw(in.data()+a,out.data()+b,l); else MemoryTools::XorRaw(in.data()+a,out.data()+b,l);
  assertEq(out,e,"raw helper affects exactly its range"); sym_reach(1+k); }
ENTRY c23_object() { //@ reach=1,2 b="CopyFromObject / CopyToObject with byte objects, lengths 0..131; CopyToValue / CopyFromValue 1..8 bytes"
  size_t l=pickLen(),a=pickOff(); int k=(int)sym_choose(0,1); 
  if(k==0){ Bytes obj=symBytes(l+1,"obj"),v=symBytes(a+l+1,"v"),e=v; for(size_t i=0;i<l;++i) e[a+i]=obj[i]; MemoryTools::CopyFromObject(obj.data(),v,a,l); assertEq(v,e,"copy from object"); sym_reach(1); }
  else { Bytes obj=symBytes(l+1,"obj"),v=symBytes(a+l+1,"v"),e=obj; for(size_t i=0;i<l;++i) e[i]=v[a+i]; MemoryTools::CopyToObject(v,a,obj.data(),l); assertEq(obj,e,"copy to object"); sym_reach(2); } }
ENTRY c23_value() { //@ reach=1,2 b="CopyToValue / CopyFromValue, 1..8 bytes, offsets 0,1,5"
  size_t l=(size_t)sym_choose(1,8),a=pickOff(); Bytes v=symBytes(a+9,"v"),e=v; uint64_t x=sym_u64("x"); 
  if(sym_choose(0,1)){ uint64_t y=x; MemoryTools::CopyToValue(v,a,x,l); for(size_t i=0;i<l;++i){ y&=~(0xFFull<<(8*i)); y|=(uint64_t)v[a+i]<<(8*i);} sym_assert(x==y,"copy to value"); sym_reach(1); }
  else { MemoryTools::CopyFromValue(x,v,a,l); for(size_t i=0;i<l;++i) e[a+i]=(uint8_t)(x>>(8*i)); assertEq(v,e,"copy from value"); sym_reach(2); } }
ENTRY c23_fixed() { //@ reach=1,2,3,4,5 b="fixed-width helpers CLEAR/COPY/XOR/AND/OR/SETVAL 128/256/512(/1024), offsets 0,1,5"
  int op=(int)sym_choose(0,5),w=(int)sym_choose(0,2); size_t n=16u<<w,a=pickOff(),b=pickOff(); if(op==5) n=128; Bytes in=symBytes(a+n+1,"in"),v=symBytes(b+n+3,"v"),e=v; uint8_t val=(uint8_t)sym_u64("val");
  for(size_t i=0;i<n;++i) e[b+i]=op==0?0:op==1?in[a+i]:op==2||op==5?(uint8_t)(e[b+i]^in[a+i]):op==3?(uint8_t)(e[b+i]&in[a+i]):(uint8_t)(e[b+i]|in[a+i]);
  if(op==0){ if(w==0) MemoryTools::CLEAR128(v,b); else if(w==1) MemoryTools::CLEAR256(v,b); else MemoryTools::CLEAR512(v,b); }
  else if(op==1){ if(w==0) MemoryTools::COPY128(in,a,v,b); else if(w==1) MemoryTools::COPY256(in,a,v,b); else MemoryTools::COPY512(in,a,v,b); }
  else if(op==2){ if(w==0) MemoryTools::XOR128(in,a,v,b); else if(w==1) MemoryTools::XOR256(in,a,v,b); else MemoryTools::XOR512(in,a,v,b); }
  else if(op==3){ if(w==0) MemoryTools::AND128(in,a,v,b); else if(w==1) MemoryTools::AND256(in,a,v,b); else MemoryTools::AND512(in,a,v,b); }
  else if(op==4){ if(w==0) MemoryTools::OR128(in,a,v,b); else if(w==1) MemoryTools::OR256(in,a,v,b); else MemoryTools::OR512(in,a,v,b); }
  else MemoryTools::XOR1024(in,a,v,b);
  assertEq(v,e,"fixed-width helper"); sym_reach(op>4?5:op+1);
  Bytes s=symBytes(b+64+2,"s"),se=s; size_t m=16u<<w; for(size_t i=0;i<m;++i) se[b+i]=val; if(w==0) MemoryTools::SETVAL128(s,b,val); else if(w==1) MemoryTools::SETVAL256(s,b,val); else MemoryTools::SETVAL512(s,b,val); assertEq(s,se,"fixed-width set"); }
ENTRY c23_xorpad() { //@ reach=1 b="XorPad and XorPartial, lengths 0..131"
  size_t l=pickLen(); Bytes v=symBytes(l,"v"),e=v; uint8_t n=(uint8_t)sym_u64("n"); MemoryTools::XorPad(v,n); for(auto&x:e) x^=n; assertEq(v,e,"XorPad"); 
  size_t a=pickOff(); Bytes in=symBytes(a+l+1,"in"),o=symBytes(l+4,"out"),oe=o; for(size_t i=0;i<l;++i) oe[1+i]^=in[a+i]; MemoryTools::XorPartial(in,a,o,1,l); assertEq(o,oe,"XorPartial"); sym_reach(1); }
