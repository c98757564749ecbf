// C20: comparisons that decide acceptance, selection helpers
//@t 90
#include "sym.h"
#include "IntegerTools.h"
#include "MemoryTools.h"
using namespace CEX; using CEX::Tools::IntegerTools; using CEX::Tools::MemoryTools;
template<typename T> static std::vector<T> symVec(size_t n,const char* nm){ std::vector<T> v(n); if(n) sym_bytes(v.data(),n*sizeof(T),nm); return v; }
template<typename T> static void cmp(){
  size_t n=(size_t)sym_choose(0,sizeof(T)==1?40:9),ao=(size_t)sym_choose(0,2),bo=(size_t)sym_choose(0,2); std::vector<T> a=symVec<T>(ao+n+1,"a"),b=symVec<T>(bo+n+1,"b");
  bool eq=true; for(size_t i=0;i<n;++i) eq&=(a[ao+i]==b[bo+i]);
  sym_assert(IntegerTools::Compare(a,ao,b,bo,n)==eq,"IntegerTools::Compare is true exactly for equal ranges");
  sym_assert((IntegerTools::Verify(a,ao,b,bo,n)==0)==eq,"Verify with offsets is zero exactly for equal ranges");
  sym_assert(MemoryTools::Compare(a,ao,b,bo,n)==eq,"MemoryTools::Compare is true exactly for equal ranges");
  bool eq0=true; for(size_t i=0;i<n;++i) eq0&=(a[i]==b[i]);
  sym_assert((IntegerTools::Verify(a,b,n)==0)==eq0,"Verify is zero exactly for equal ranges");
  int32_t d=IntegerTools::DiffMask(a,b,n); sym_assert(d==(eq0?0:-1),"DiffMask is zero for equal arrays, else -1");
  if(sizeof(T)==1) sym_assert((IntegerTools::VerifyRaw((const uint8_t*)a.data()+ao,(const uint8_t*)b.data()+bo,n)==0)==eq,"VerifyRaw"); sym_reach(1); }
ENTRY c20_cmp8() { cmp<uint8_t>(); } //@ reach=1 b="Compare, Verify (three forms), DiffMask over byte ranges of 0..40 at offsets 0..2, every content"
ENTRY c20_cmp16() { cmp<uint16_t>(); } //@ reach=1 b="same over 16-bit elements, 0..9"
ENTRY c20_cmp32() { cmp<uint32_t>(); } //@ reach=1 b="same over 32-bit elements, 0..9"
ENTRY c20_cmp64() { cmp<uint64_t>(); } //@ reach=1 b="same over 64-bit elements, 0..9"
ENTRY c20_cmov() { //@ reach=1 b="CMov and CMovRaw, 0..40 bytes, offsets 0..2, both conditions"
  size_t n=(size_t)sym_choose(0,40),ao=(size_t)sym_choose(0,2),bo=(size_t)sym_choose(0,2); Bytes a=symBytes(ao+n+1,"a"),b=symBytes(bo+n+1,"b"),e=b,r=b; uint8_t c=(uint8_t)sym_u64("cond")&1;
  for(size_t i=0;i<n;++i) e[bo+i]=c?a[ao+i]:b[bo+i]; IntegerTools::CMov(a,ao,b,bo,n,c); assertEq(b,e,"CMov"); IntegerTools::CMovRaw(a.data()+ao,r.data()+bo,n,c); assertEq(r,e,"CMovRaw"); sym_reach(1); }
template<typename T> static void masks(){ T x=(T)sym_u64("x"),y=(T)sym_u64("y"); const T F=(T)~(T)0;
  sym_assert(IntegerTools::ExpandMask<T>(x)==(x?F:0),"ExpandMask"); sym_assert(IntegerTools::ExpandTopBit<T>(x)==((x>>(8*sizeof(T)-1))?F:0),"ExpandTopBit"); sym_assert(IntegerTools::IsZero<T>(x)==(x?0:F),"IsZero");
  sym_assert(IntegerTools::IsEqual<T>(x,y)==(x==y?F:0),"IsEqual"); sym_assert(IntegerTools::IsLess<T>(x,y)==(x<y?F:0),"IsLess"); sym_assert(IntegerTools::IsLte<T>(x,y)==(x<=y?F:0),"IsLte");
  sym_assert(IntegerTools::CMax<T>(x,y)==(x>y?x:y),"CMax returns the larger value"); sym_assert(IntegerTools::CMin<T>(x,y)==(x<y?x:y),"CMin returns the lesser value");
  T m=(T)sym_u64("m"); sym_assert(IntegerTools::Select<T>(m,x,y)==(T)((x&m)|(y&~m)),"Select"); sym_assert((IntegerTools::ValueOrZero<T,T>(m,x))==(m?x:0),"ValueOrZero"); 
  std::vector<T> v=symVec<T>(6,"v"),w=symVec<T>(6,"w"),t(6),z=v; IntegerTools::ConditionalCopy<T>(m,t.data(),v.data(),w.data(),5); for(int i=0;i<5;++i) sym_assert(t[i]==(m?v[i]:w[i]),"ConditionalCopy"); sym_assert(t[5]==0,"ConditionalCopy range");
  IntegerTools::ConditionalZeroMem<T>(m,z,5); for(int i=0;i<5;++i) sym_assert(z[i]==(m?0:v[i]),"ConditionalZeroMem"); sym_assert(z[5]==v[5],"ConditionalZeroMem range"); sym_reach(1); }
ENTRY c20_mask8() { masks<uint8_t>(); } //@ reach=1 b="mask and select helpers on 8-bit values, every value"
ENTRY c20_mask32() { masks<uint32_t>(); } //@ reach=1 b="mask and select helpers on 32-bit values, every value"
ENTRY c20_mask64() { masks<uint64_t>(); } //@ reach=1 b="mask and select helpers on 64-bit values, every value"
